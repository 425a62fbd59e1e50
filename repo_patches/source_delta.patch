From 4e09397c195ab0aa1550d61a23071dff23ed6b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 01/57] fix: convert_coordinates uses the requested output
 filename

---
 beam_telescope_analysis/hit_analysis.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 6f95c9e..79312bf 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -109,6 +109,8 @@ def convert_coordinates(dut, input_hit_file, output_hit_file=None, index_to_loca
 
     if output_hit_file is None:
         output_file = os.path.splitext(input_hit_file)[0] + ('_local_coordinates.h5' if index_to_local else '_index.h5')
+    else:
+        output_file = output_hit_file
 
     with tb.open_file(input_hit_file, mode='r') as in_file_h5:
         with tb.open_file(output_file, mode='w') as out_file_h5:
-- 
2.43.0


From fe6a4afd263c7ed13da03a70355a7d7686bd2c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 02/57] fix: find_ransac returns empty inlier lists when no
 model is found

---
 beam_telescope_analysis/dut_alignment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index a6e552c..87f7b04 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -482,6 +482,8 @@ def find_ransac(x, y, iterations=100, threshold=1.0, ratio=0.5):
     model_ratio = 0.0
     model_m = 0.0
     model_c = 0.0
+    model_x_list = np.array([])
+    model_y_list = np.array([])
 
     # perform RANSAC iterations
     for it in range(iterations):
-- 
2.43.0


From 4dfa6f1d9c3bfb64953413b27d634ebabebc7c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 03/57] fix: calculate_transformation uses the rotation
 averaged over all chunks

---
 beam_telescope_analysis/dut_alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 87f7b04..86be4cb 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1971,7 +1971,7 @@ def calculate_transformation(telescope_configuration, input_tracks_file, select_
             # average rotation matrices from different chunks
             u_rot, _, v_rot = np.linalg.svd(rotation_average, full_matrices=False)
             rotation_average = np.dot(u_rot, v_rot)  # orthogonal matrix U
-            alpha_average, beta_average, gamma_average = geometry_utils.euler_angles(R=rotation)
+            alpha_average, beta_average, gamma_average = geometry_utils.euler_angles(R=rotation_average)
 
             actual_dut.translation_x = translation_average[0]
             actual_dut.translation_y = translation_average[1]
-- 
2.43.0


From f49fda35f36ae46d2718f608e3e87bc59db29597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 04/57] fix: combine_files handles empty tables

---
 beam_telescope_analysis/tools/data_selection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 8305787..0e57cb3 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -100,7 +100,8 @@ def combine_files(input_files, output_file=None, names=None, event_number_offset
                         out_tables[table.name].append(data_chunk)
                         out_tables[table.name].flush()
                     if last_event_numbers[table.name] is not None:
-                        last_event_numbers[table.name] = data_chunk[-1]['event_number']
+                        if table.nrows > 0:
+                            last_event_numbers[table.name] = data_chunk[-1]['event_number']
                         applied_event_number_offsets[table.name].append(event_number_offset)
 
     return output_file, applied_event_number_offsets
-- 
2.43.0


From e1db26b3ceca4500fd2ad9ee009cc67cfb7f0f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 05/57] fix: euler_angles returns the angles calculated for the
 gimbal lock

---
 .../tools/geometry_utils.py                   | 1037 +++++++++--------
 1 file changed, 519 insertions(+), 518 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index b2f4ce4..240a6bf 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -1,518 +1,519 @@
-''' Helper functions for geometrical operations.
-'''
-from __future__ import division
-
-import logging
-
-import numpy as np
-
-
-def skew(v):
-    matr = np.zeros(np.prod(np.r_[v.shape, 3]))
-    matr[::9] = v.flatten()[::3]
-    matr[4::9] = v.flatten()[1::3]
-    matr[8::9] = v.flatten()[2::3]
-    matr = matr.reshape(np.r_[v.shape, 3])
-
-    if len(v.shape) == 1:
-        matr_skv = np.roll(np.roll(matr, 1, 1), -1, 0)
-        return matr_skv - matr_skv.T
-    else:
-        matr_skv = np.roll(np.roll(matr, 1, 2), -1, 1)
-        return matr_skv - matr_skv.transpose((0, 2, 1))
-
-
-def get_plane_normal(direction_vector_1, direction_vector_2):
-    ''' Normal vector of a plane.
-
-    Plane is define by two non parallel direction vectors within the plane.
-
-    Parameters
-    ----------
-    direction_vector_1 : array
-        Array with x, y and z.
-    direction_vector_2 : array
-        Array with x, y and z.
-
-    Returns
-    -------
-    Array with x, y and z.
-    '''
-    return np.cross(direction_vector_1, direction_vector_2)
-
-
-def get_line_intersections_with_dut(line_origins, line_directions, translation_x, translation_y, translation_z, rotation_alpha, rotation_beta, rotation_gamma):
-    ''' Calculates the intersection of lines with a DUT.
-
-    If there is no intersection point (line is parallel to plane or the line is
-    in the plane) the intersection point is set to nan.
-
-    Notes
-    -----
-    Further information:
-    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
-
-    Parameters
-    ----------
-    line_origins : array
-        A point (x, y and z) on the line for each of the n lines.
-    line_directions : array
-        The direction vector of the line for n lines.
-    translation_x, translation_y, translation_z : float
-        The coordianates of the DUT (in um).
-    rotation_alpha, rotation_beta, rotation_gamma : float
-        The rotation angles of the DUT (in radians).
-
-    Returns
-    -------
-    Array with shape (n, 3) with the intersection point.
-    '''
-    dut_position = np.array([
-        translation_x,
-        translation_y,
-        translation_z],
-        dtype=np.float64)
-    dut_rotation_matrix = rotation_matrix(
-        alpha=rotation_alpha,
-        beta=rotation_beta,
-        gamma=rotation_gamma)
-    basis_global = dut_rotation_matrix.T.dot(np.eye(3, dtype=np.float64))
-    dut_normal = basis_global[2]
-    dut_normal /= np.sqrt(np.dot(dut_normal, dut_normal))
-    if dut_normal[2] < 0:
-        dut_normal = -dut_normal
-    return get_line_intersections_with_plane(
-        line_origins=line_origins,
-        line_directions=line_directions,
-        position_plane=dut_position,
-        normal_plane=dut_normal)
-
-
-def get_line_intersections_with_plane(line_origins, line_directions, position_plane, normal_plane):
-    ''' Calculates the intersection of n lines with one plane.
-
-    If there is no intersection point (line is parallel to plane or the line is
-    in the plane) the intersection point is set to nan.
-
-    Notes
-    -----
-    Further information:
-    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
-
-    Parameters
-    ----------
-    line_origins : array
-        A point (x, y and z) on the line for each of the n lines.
-    line_directions : array
-        The direction vector of the line for n lines.
-    position_plane : array
-        A array (x, y and z) to the plane.
-    normal_plane : array
-        The normal vector (x, y and z) of the plane.
-
-    Returns
-    -------
-    Array with shape (n, 3) with the intersection point.
-    '''
-    # Calculate offsets and extend in missing dimension
-    offsets = position_plane[np.newaxis, :] - line_origins
-
-    # Precalculate to be able to avoid division by 0
-    # (line is parallel to the plane or in the plane)
-    norm_dot_off = np.dot(normal_plane, offsets.T)
-    # Dot product is transformed to be at least 1D for special n = 1
-    norm_dot_dir = np.atleast_1d(np.dot(normal_plane,
-                                        line_directions.T))
-
-    # Initialize result to nan
-    t = np.full_like(norm_dot_off, fill_value=np.nan, dtype=np.float64)
-
-    # Warn if some intersection cannot be calculated
-    if np.any(norm_dot_dir == 0):
-        raise
-        logging.warning('Some line plane intersection could not be calculated')
-
-    # Calculate t scalar for each line simultaniously, avoid division by 0
-    sel = norm_dot_dir != 0
-    t[sel] = norm_dot_off[sel] / norm_dot_dir[sel]
-
-    # Calculate the intersections for each line with the plane
-    intersections = line_origins + line_directions * t[:, np.newaxis]
-
-    return intersections
-
-
-def cartesian_to_spherical(x, y, z):
-    ''' Does a transformation from cartesian to spherical coordinates.
-
-    Convention: r = 0 --> phi = theta = 0
-
-    Parameters
-    ----------
-    x, y, z : float
-        Position in cartesian space.
-
-    Returns
-    -------
-    Spherical coordinates phi, theta and r.
-    '''
-    r = np.sqrt(x * x + y * y + z * z)
-    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = 0
-    theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
-    # Avoid division by zero
-    # https://en.wikipedia.org/wiki/Atan2
-    phi[x != 0] = np.arctan2(y[x != 0], x[x != 0])
-    phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
-    theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
-    return phi, theta, r
-
-
-def spherical_to_cartesian(phi, theta, r):
-    ''' Transformation from spherical to cartesian coordinates.
-
-    Including error checks.
-
-    Parameters
-    ----------
-    phi, theta, r : float
-        Position in spherical space.
-
-    Returns
-    -------
-    Cartesian coordinates x, y and z.
-    '''
-    if np.any(r < 0):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because r < 0')
-    if np.any(theta < 0) or np.any(theta >= np.pi):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because theta exceeds [0, Pi[')
-    if np.any(phi < 0) or np.any(phi >= 2 * np.pi):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because phi exceeds [0, 2*Pi[')
-    x = r * np.cos(phi) * np.sin(theta)
-    y = r * np.sin(phi) * np.sin(theta)
-    z = r * np.cos(theta)
-
-    return x, y, z
-
-
-def rotation_matrix_x(alpha):
-    ''' Calculates the rotation matrix for the rotation around the x axis by an angle alpha in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    alpha : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[1, 0, 0],
-                     [0, np.cos(alpha), -np.sin(alpha)],
-                     [0, np.sin(alpha), np.cos(alpha)]],
-                    dtype=np.float64)
-
-
-def rotation_matrix_y(beta):
-    ''' Calculates the rotation matrix for the rotation around the y axis by an angle beta in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    beta : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[np.cos(beta), 0, np.sin(beta)],
-                     [0, 1, 0],
-                     [-np.sin(beta), 0, np.cos(beta)]],
-                    dtype=np.float64)
-
-
-def rotation_matrix_z(gamma):
-    ''' Calculates the rotation matrix for the rotation around the z axis by an angle gamma in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    gamma : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[np.cos(gamma), -np.sin(gamma), 0],
-                     [np.sin(gamma), np.cos(gamma), 0],
-                     [0, 0, 1]],
-                    dtype=np.float64)
-
-
-def rotation_matrix(alpha, beta, gamma):
-    ''' Calculates the rotation matrix for the rotation around the three cartesian
-    axis x, y, z in a right-handed coordinate system.
-
-    Note
-    ----
-    The matrix represents a rotation around the x axis, then the y axis,
-    and then the z axis in a right-handed coordinate system.
-
-    Remember:
-        - Transform to the locale coordinate system before applying rotations
-        - Rotations are associative but not commutative
-
-    Usage
-    -----
-        A rotation by (alpha, beta, gamma) of the vector (x, y, z) in the local
-        coordinate system can be done by:
-            np.dot(rotation_matrix(alpha, beta, gamma), np.array([x, y, z]))
-
-    Parameters
-    ----------
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.linalg.multi_dot([rotation_matrix_z(gamma=gamma), rotation_matrix_y(beta=beta), rotation_matrix_x(alpha=alpha)])
-
-
-def euler_angles(R):
-    ''' Calculates the Euler angles from rotation matrix R.
-
-    Note
-    ----
-    In a right-handed system. The rotation is done around x then y then z.
-
-    Note:
-        - Transform to the local coordinate system before applying rotations
-        - Rotations are associative but not commutative
-        - In cases of beta = pi/2 and -pi/2, gamma and alpha are linked (gimbal lock).
-          In this case, gamma is set to zero.
-
-    Parameters
-    ----------
-    R : array
-        Rotation matrix.
-
-    Returns
-    -------
-    Returns Euler angles alpha, beta and gamma.
-    '''
-    def is_rotation_matrix(R):
-        norm = np.linalg.norm(np.identity(3, dtype=R.dtype) - np.dot(R.T, R))
-        return np.isclose(0.0, norm)
-
-    if not is_rotation_matrix(R):
-        raise ValueError("%s is not a rotation matrix" % str(R))
-
-    if R[2, 0] == -1:
-        gamma = 0.0  # gimbal lock
-        alpha = gamma + np.arctan2(R[0, 1], R[0, 2])
-        beta = np.pi / 2
-    elif R[2, 0] == 1:
-        gamma = 0.0  # gimbal lock
-        alpha = -gamma + np.arctan2(-R[0, 1], -R[0, 2])
-        beta = -np.pi / 2
-    else:
-        beta_1 = -np.arcsin(R[2, 0])
-        # for very small values use 0.0 and remove minus sign from 0.0
-        if beta_1 <= np.finfo(beta_1.dtype).eps and beta_1 >= -np.finfo(beta_1.dtype).eps:
-            beta_1 = 0.0
-        beta_2 = np.pi - beta_1
-        alpha_1 = np.arctan2(R[2, 1] / np.cos(beta_1), R[2, 2] / np.cos(beta_1))
-        if alpha_1 <= np.finfo(alpha_1.dtype).eps and alpha_1 >= -np.finfo(alpha_1.dtype).eps:
-            alpha_1 = 0.0
-        alpha_2 = np.arctan2(R[2, 1] / np.cos(beta_2), R[2, 2] / np.cos(beta_2))
-        if alpha_2 <= np.finfo(alpha_2.dtype).eps and alpha_2 >= -np.finfo(alpha_2.dtype).eps:
-            alpha_2 = 0.0
-        gamma_1 = np.arctan2(R[1, 0] / np.cos(beta_1), R[0, 0] / np.cos(beta_1))
-        if gamma_1 <= np.finfo(gamma_1.dtype).eps and gamma_1 >= -np.finfo(gamma_1.dtype).eps:
-            gamma_1 = 0.0
-        gamma_2 = np.arctan2(R[1, 0] / np.cos(beta_2), R[0, 0] / np.cos(beta_2))
-        if gamma_2 <= np.finfo(gamma_2.dtype).eps and gamma_2 >= -np.finfo(gamma_2.dtype).eps:
-            gamma_2 = 0.0
-        # # chose the angles with smaller values
-        # if np.sum(np.abs([alpha_1, beta_1, gamma_1])) <= np.sum(np.abs([alpha_2, beta_2, gamma_2])):
-        #     alpha, beta, gamma = alpha_1, beta_1, gamma_1
-        # else:
-        #     alpha, beta, gamma = alpha_2, beta_2, gamma_2
-    return alpha_1, beta_1, gamma_1
-
-
-def translation_matrix(x, y, z):
-    ''' Calculates the translation matrix for the translation in x, y, z in a cartesian right-handed system.
-
-    Note
-    ----
-    Remember: Translations are associative and commutative
-
-    Usage
-    -----
-        A translation of a vector (x, y, z) by dx, dy, dz can be done by:
-          np.dot(translation_matrix(dx, dy, dz), np.array([x, y, z, 1]))
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    translation_matrix = np.eye(4, 4, 0, dtype=np.float64)
-    translation_matrix[3, :3] = np.array([x, y, z], dtype=np.float64)
-
-    return translation_matrix.T
-
-
-def global_to_local_transformation_matrix(x, y, z, alpha, beta, gamma):
-    ''' Transformation matrix that applies a translation and rotation.
-
-    Translation is T=(-x, -y, -z) to the local coordinate system followed
-    by a rotation = R(alpha, beta, gamma).T in the local coordinate system.
-
-    Note
-    ----
-        - This function is the inverse of
-          local_to_global_transformation_matrix()
-        - The resulting transformation matrix is 4 x 4
-        - Translation and Rotation operations are not commutative
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    # Extend rotation matrix R by one dimension
-    R = np.eye(4, 4, 0, dtype=np.float64)
-    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma).T
-
-    # Get translation matrix T
-    T = translation_matrix(x=-x, y=-y, z=-z)
-
-    return np.dot(R, T)
-
-
-def local_to_global_transformation_matrix(x, y, z, alpha, beta, gamma):
-    ''' Transformation matrix that applies a inverse translation and rotation.
-
-    Inverse rotation in the local coordinate system followed by an inverse
-    translation by x, y, z to the global coordinate system.
-
-    Note
-    ----
-        - The resulting transformation matrix is 4 x 4
-        - Translation and Rotation operations do not commutative
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    # Extend inverse rotation matrix R by one dimension
-    R = np.eye(4, 4, 0, dtype=np.float64)
-    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma)
-
-    # Get inverse translation matrix T
-    T = translation_matrix(x=x, y=y, z=z)
-
-    return np.dot(T, R)
-
-
-def apply_transformation_matrix(x, y, z, transformation_matrix):
-    ''' Takes arrays for x, y, z and applies a transformation matrix (4 x 4).
-
-    Parameters
-    ----------
-    x : array
-        Array of x coordinates.
-    y : array
-        Array of y coordinates.
-    z : array
-        Array of z coordinates.
-
-    Returns
-    -------
-    Array with transformed coordinates.
-    '''
-    # Add extra 4th dimension
-    pos = np.column_stack((x, y, z, np.ones_like(x, dtype=np.float64))).T
-
-    # Transform and delete extra dimension
-    pos_transformed = np.dot(transformation_matrix, pos).T[:, :-1]
-
-    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
-
-
-def apply_rotation_matrix(x, y, z, rotation_matrix):
-    ''' Takes array in x, y, z and applies a rotation matrix (3 x 3).
-
-    Parameters
-    ----------
-    x : array
-        Array of x coordinates.
-    y : array
-        Array of x coordinates.
-    z : array
-        Array of x coordinates.
-
-    Returns
-    -------
-    Array with rotated coordinates.
-    '''
-    pos = np.column_stack((x, y, z)).T
-    pos_transformed = np.dot(rotation_matrix, pos).T
-
-    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
+''' Helper functions for geometrical operations.
+'''
+from __future__ import division
+
+import logging
+
+import numpy as np
+
+
+def skew(v):
+    matr = np.zeros(np.prod(np.r_[v.shape, 3]))
+    matr[::9] = v.flatten()[::3]
+    matr[4::9] = v.flatten()[1::3]
+    matr[8::9] = v.flatten()[2::3]
+    matr = matr.reshape(np.r_[v.shape, 3])
+
+    if len(v.shape) == 1:
+        matr_skv = np.roll(np.roll(matr, 1, 1), -1, 0)
+        return matr_skv - matr_skv.T
+    else:
+        matr_skv = np.roll(np.roll(matr, 1, 2), -1, 1)
+        return matr_skv - matr_skv.transpose((0, 2, 1))
+
+
+def get_plane_normal(direction_vector_1, direction_vector_2):
+    ''' Normal vector of a plane.
+
+    Plane is define by two non parallel direction vectors within the plane.
+
+    Parameters
+    ----------
+    direction_vector_1 : array
+        Array with x, y and z.
+    direction_vector_2 : array
+        Array with x, y and z.
+
+    Returns
+    -------
+    Array with x, y and z.
+    '''
+    return np.cross(direction_vector_1, direction_vector_2)
+
+
+def get_line_intersections_with_dut(line_origins, line_directions, translation_x, translation_y, translation_z, rotation_alpha, rotation_beta, rotation_gamma):
+    ''' Calculates the intersection of lines with a DUT.
+
+    If there is no intersection point (line is parallel to plane or the line is
+    in the plane) the intersection point is set to nan.
+
+    Notes
+    -----
+    Further information:
+    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
+
+    Parameters
+    ----------
+    line_origins : array
+        A point (x, y and z) on the line for each of the n lines.
+    line_directions : array
+        The direction vector of the line for n lines.
+    translation_x, translation_y, translation_z : float
+        The coordianates of the DUT (in um).
+    rotation_alpha, rotation_beta, rotation_gamma : float
+        The rotation angles of the DUT (in radians).
+
+    Returns
+    -------
+    Array with shape (n, 3) with the intersection point.
+    '''
+    dut_position = np.array([
+        translation_x,
+        translation_y,
+        translation_z],
+        dtype=np.float64)
+    dut_rotation_matrix = rotation_matrix(
+        alpha=rotation_alpha,
+        beta=rotation_beta,
+        gamma=rotation_gamma)
+    basis_global = dut_rotation_matrix.T.dot(np.eye(3, dtype=np.float64))
+    dut_normal = basis_global[2]
+    dut_normal /= np.sqrt(np.dot(dut_normal, dut_normal))
+    if dut_normal[2] < 0:
+        dut_normal = -dut_normal
+    return get_line_intersections_with_plane(
+        line_origins=line_origins,
+        line_directions=line_directions,
+        position_plane=dut_position,
+        normal_plane=dut_normal)
+
+
+def get_line_intersections_with_plane(line_origins, line_directions, position_plane, normal_plane):
+    ''' Calculates the intersection of n lines with one plane.
+
+    If there is no intersection point (line is parallel to plane or the line is
+    in the plane) the intersection point is set to nan.
+
+    Notes
+    -----
+    Further information:
+    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
+
+    Parameters
+    ----------
+    line_origins : array
+        A point (x, y and z) on the line for each of the n lines.
+    line_directions : array
+        The direction vector of the line for n lines.
+    position_plane : array
+        A array (x, y and z) to the plane.
+    normal_plane : array
+        The normal vector (x, y and z) of the plane.
+
+    Returns
+    -------
+    Array with shape (n, 3) with the intersection point.
+    '''
+    # Calculate offsets and extend in missing dimension
+    offsets = position_plane[np.newaxis, :] - line_origins
+
+    # Precalculate to be able to avoid division by 0
+    # (line is parallel to the plane or in the plane)
+    norm_dot_off = np.dot(normal_plane, offsets.T)
+    # Dot product is transformed to be at least 1D for special n = 1
+    norm_dot_dir = np.atleast_1d(np.dot(normal_plane,
+                                        line_directions.T))
+
+    # Initialize result to nan
+    t = np.full_like(norm_dot_off, fill_value=np.nan, dtype=np.float64)
+
+    # Warn if some intersection cannot be calculated
+    if np.any(norm_dot_dir == 0):
+        raise
+        logging.warning('Some line plane intersection could not be calculated')
+
+    # Calculate t scalar for each line simultaniously, avoid division by 0
+    sel = norm_dot_dir != 0
+    t[sel] = norm_dot_off[sel] / norm_dot_dir[sel]
+
+    # Calculate the intersections for each line with the plane
+    intersections = line_origins + line_directions * t[:, np.newaxis]
+
+    return intersections
+
+
+def cartesian_to_spherical(x, y, z):
+    ''' Does a transformation from cartesian to spherical coordinates.
+
+    Convention: r = 0 --> phi = theta = 0
+
+    Parameters
+    ----------
+    x, y, z : float
+        Position in cartesian space.
+
+    Returns
+    -------
+    Spherical coordinates phi, theta and r.
+    '''
+    r = np.sqrt(x * x + y * y + z * z)
+    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = 0
+    theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
+    # Avoid division by zero
+    # https://en.wikipedia.org/wiki/Atan2
+    phi[x != 0] = np.arctan2(y[x != 0], x[x != 0])
+    phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
+    theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
+    return phi, theta, r
+
+
+def spherical_to_cartesian(phi, theta, r):
+    ''' Transformation from spherical to cartesian coordinates.
+
+    Including error checks.
+
+    Parameters
+    ----------
+    phi, theta, r : float
+        Position in spherical space.
+
+    Returns
+    -------
+    Cartesian coordinates x, y and z.
+    '''
+    if np.any(r < 0):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because r < 0')
+    if np.any(theta < 0) or np.any(theta >= np.pi):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because theta exceeds [0, Pi[')
+    if np.any(phi < 0) or np.any(phi >= 2 * np.pi):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because phi exceeds [0, 2*Pi[')
+    x = r * np.cos(phi) * np.sin(theta)
+    y = r * np.sin(phi) * np.sin(theta)
+    z = r * np.cos(theta)
+
+    return x, y, z
+
+
+def rotation_matrix_x(alpha):
+    ''' Calculates the rotation matrix for the rotation around the x axis by an angle alpha in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    alpha : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[1, 0, 0],
+                     [0, np.cos(alpha), -np.sin(alpha)],
+                     [0, np.sin(alpha), np.cos(alpha)]],
+                    dtype=np.float64)
+
+
+def rotation_matrix_y(beta):
+    ''' Calculates the rotation matrix for the rotation around the y axis by an angle beta in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    beta : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[np.cos(beta), 0, np.sin(beta)],
+                     [0, 1, 0],
+                     [-np.sin(beta), 0, np.cos(beta)]],
+                    dtype=np.float64)
+
+
+def rotation_matrix_z(gamma):
+    ''' Calculates the rotation matrix for the rotation around the z axis by an angle gamma in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    gamma : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[np.cos(gamma), -np.sin(gamma), 0],
+                     [np.sin(gamma), np.cos(gamma), 0],
+                     [0, 0, 1]],
+                    dtype=np.float64)
+
+
+def rotation_matrix(alpha, beta, gamma):
+    ''' Calculates the rotation matrix for the rotation around the three cartesian
+    axis x, y, z in a right-handed coordinate system.
+
+    Note
+    ----
+    The matrix represents a rotation around the x axis, then the y axis,
+    and then the z axis in a right-handed coordinate system.
+
+    Remember:
+        - Transform to the locale coordinate system before applying rotations
+        - Rotations are associative but not commutative
+
+    Usage
+    -----
+        A rotation by (alpha, beta, gamma) of the vector (x, y, z) in the local
+        coordinate system can be done by:
+            np.dot(rotation_matrix(alpha, beta, gamma), np.array([x, y, z]))
+
+    Parameters
+    ----------
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.linalg.multi_dot([rotation_matrix_z(gamma=gamma), rotation_matrix_y(beta=beta), rotation_matrix_x(alpha=alpha)])
+
+
+def euler_angles(R):
+    ''' Calculates the Euler angles from rotation matrix R.
+
+    Note
+    ----
+    In a right-handed system. The rotation is done around x then y then z.
+
+    Note:
+        - Transform to the local coordinate system before applying rotations
+        - Rotations are associative but not commutative
+        - In cases of beta = pi/2 and -pi/2, gamma and alpha are linked (gimbal lock).
+          In this case, gamma is set to zero.
+
+    Parameters
+    ----------
+    R : array
+        Rotation matrix.
+
+    Returns
+    -------
+    Returns Euler angles alpha, beta and gamma.
+    '''
+    def is_rotation_matrix(R):
+        norm = np.linalg.norm(np.identity(3, dtype=R.dtype) - np.dot(R.T, R))
+        return np.isclose(0.0, norm)
+
+    if not is_rotation_matrix(R):
+        raise ValueError("%s is not a rotation matrix" % str(R))
+
+    if R[2, 0] == -1:
+        gamma = 0.0  # gimbal lock
+        alpha = gamma + np.arctan2(R[0, 1], R[0, 2])
+        beta = np.pi / 2
+    elif R[2, 0] == 1:
+        gamma = 0.0  # gimbal lock
+        alpha = -gamma + np.arctan2(-R[0, 1], -R[0, 2])
+        beta = -np.pi / 2
+    else:
+        beta_1 = -np.arcsin(R[2, 0])
+        # for very small values use 0.0 and remove minus sign from 0.0
+        if beta_1 <= np.finfo(beta_1.dtype).eps and beta_1 >= -np.finfo(beta_1.dtype).eps:
+            beta_1 = 0.0
+        beta_2 = np.pi - beta_1
+        alpha_1 = np.arctan2(R[2, 1] / np.cos(beta_1), R[2, 2] / np.cos(beta_1))
+        if alpha_1 <= np.finfo(alpha_1.dtype).eps and alpha_1 >= -np.finfo(alpha_1.dtype).eps:
+            alpha_1 = 0.0
+        alpha_2 = np.arctan2(R[2, 1] / np.cos(beta_2), R[2, 2] / np.cos(beta_2))
+        if alpha_2 <= np.finfo(alpha_2.dtype).eps and alpha_2 >= -np.finfo(alpha_2.dtype).eps:
+            alpha_2 = 0.0
+        gamma_1 = np.arctan2(R[1, 0] / np.cos(beta_1), R[0, 0] / np.cos(beta_1))
+        if gamma_1 <= np.finfo(gamma_1.dtype).eps and gamma_1 >= -np.finfo(gamma_1.dtype).eps:
+            gamma_1 = 0.0
+        gamma_2 = np.arctan2(R[1, 0] / np.cos(beta_2), R[0, 0] / np.cos(beta_2))
+        if gamma_2 <= np.finfo(gamma_2.dtype).eps and gamma_2 >= -np.finfo(gamma_2.dtype).eps:
+            gamma_2 = 0.0
+        alpha, beta, gamma = alpha_1, beta_1, gamma_1
+        # # chose the angles with smaller values
+        # if np.sum(np.abs([alpha_1, beta_1, gamma_1])) <= np.sum(np.abs([alpha_2, beta_2, gamma_2])):
+        #     alpha, beta, gamma = alpha_1, beta_1, gamma_1
+        # else:
+        #     alpha, beta, gamma = alpha_2, beta_2, gamma_2
+    return alpha, beta, gamma
+
+
+def translation_matrix(x, y, z):
+    ''' Calculates the translation matrix for the translation in x, y, z in a cartesian right-handed system.
+
+    Note
+    ----
+    Remember: Translations are associative and commutative
+
+    Usage
+    -----
+        A translation of a vector (x, y, z) by dx, dy, dz can be done by:
+          np.dot(translation_matrix(dx, dy, dz), np.array([x, y, z, 1]))
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    translation_matrix = np.eye(4, 4, 0, dtype=np.float64)
+    translation_matrix[3, :3] = np.array([x, y, z], dtype=np.float64)
+
+    return translation_matrix.T
+
+
+def global_to_local_transformation_matrix(x, y, z, alpha, beta, gamma):
+    ''' Transformation matrix that applies a translation and rotation.
+
+    Translation is T=(-x, -y, -z) to the local coordinate system followed
+    by a rotation = R(alpha, beta, gamma).T in the local coordinate system.
+
+    Note
+    ----
+        - This function is the inverse of
+          local_to_global_transformation_matrix()
+        - The resulting transformation matrix is 4 x 4
+        - Translation and Rotation operations are not commutative
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    # Extend rotation matrix R by one dimension
+    R = np.eye(4, 4, 0, dtype=np.float64)
+    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma).T
+
+    # Get translation matrix T
+    T = translation_matrix(x=-x, y=-y, z=-z)
+
+    return np.dot(R, T)
+
+
+def local_to_global_transformation_matrix(x, y, z, alpha, beta, gamma):
+    ''' Transformation matrix that applies a inverse translation and rotation.
+
+    Inverse rotation in the local coordinate system followed by an inverse
+    translation by x, y, z to the global coordinate system.
+
+    Note
+    ----
+        - The resulting transformation matrix is 4 x 4
+        - Translation and Rotation operations do not commutative
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    # Extend inverse rotation matrix R by one dimension
+    R = np.eye(4, 4, 0, dtype=np.float64)
+    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma)
+
+    # Get inverse translation matrix T
+    T = translation_matrix(x=x, y=y, z=z)
+
+    return np.dot(T, R)
+
+
+def apply_transformation_matrix(x, y, z, transformation_matrix):
+    ''' Takes arrays for x, y, z and applies a transformation matrix (4 x 4).
+
+    Parameters
+    ----------
+    x : array
+        Array of x coordinates.
+    y : array
+        Array of y coordinates.
+    z : array
+        Array of z coordinates.
+
+    Returns
+    -------
+    Array with transformed coordinates.
+    '''
+    # Add extra 4th dimension
+    pos = np.column_stack((x, y, z, np.ones_like(x, dtype=np.float64))).T
+
+    # Transform and delete extra dimension
+    pos_transformed = np.dot(transformation_matrix, pos).T[:, :-1]
+
+    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
+
+
+def apply_rotation_matrix(x, y, z, rotation_matrix):
+    ''' Takes array in x, y, z and applies a rotation matrix (3 x 3).
+
+    Parameters
+    ----------
+    x : array
+        Array of x coordinates.
+    y : array
+        Array of x coordinates.
+    z : array
+        Array of x coordinates.
+
+    Returns
+    -------
+    Array with rotated coordinates.
+    '''
+    pos = np.column_stack((x, y, z)).T
+    pos_transformed = np.dot(rotation_matrix, pos).T
+
+    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
-- 
2.43.0


From 1f54d4b6d9aac39b892571bf7329a5b555721078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 06/57] fix: plot_cluster_hists reports a missing telescope
 configuration

---
 beam_telescope_analysis/tools/plot_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index db9e88d..0a56dc2 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -396,6 +396,9 @@ def plot_cluster_hists(telescope_configuration=None, input_cluster_file=None, in
     if (input_merged_file or input_track_candidates_file or input_tracks_file) and dut_name:
         raise ValueError("\"telescope_configuration\" parameter must be used instead of \"dut_name\" parameter")
 
+    if not input_cluster_file and telescope_configuration is None:
+        raise ValueError("\"telescope_configuration\" parameter must be given")
+
     if telescope_configuration is not None:
         telescope = Telescope(telescope_configuration)
 
-- 
2.43.0


From 69e8217731e26becaec733136c279ab212d040ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:16 +0000
Subject: [PATCH 07/57] fix: create_results_array keeps the chi2 values when
 all track candidates are kept

---
 beam_telescope_analysis/track_analysis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 6fd1a04..bdae841 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -1398,9 +1398,9 @@ def create_results_array(n_duts, dut_offsets, dut_slopes, track_chi2s, track_chi
                 tracks_array['slope_z_dut_%d' % index_dut][~select_fit_tracks] = np.nan
         tracks_array['track_chi2'][select_fit_tracks] = track_chi2s
         tracks_array['track_chi2'][~select_fit_tracks] = np.nan
-        tracks_array['track_chi_red'][select_fit_tracks] = track_chi2_red
+        tracks_array['track_chi_red'][select_fit_tracks] = track_chi2s_red
         tracks_array['track_chi_red'][~select_fit_tracks] = np.nan
-        tracks_array['track_chi_prob'][select_fit_tracks] = track_chi2_prob
+        tracks_array['track_chi_prob'][select_fit_tracks] = track_chi2s_prob
         tracks_array['track_chi_prob'][~select_fit_tracks] = np.nan
         tracks_array['quality_flag'][select_fit_tracks] = quality_flag
         tracks_array['quality_flag'][~select_fit_tracks] = 0
-- 
2.43.0


From 7357615656a61d47075450f3ba39f68c7d69028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:17 +0000
Subject: [PATCH 08/57] fix: open_configuation accepts file objects

---
 beam_telescope_analysis/telescope/telescope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/telescope/telescope.py b/beam_telescope_analysis/telescope/telescope.py
index 5e45ddf..f94717c 100644
--- a/beam_telescope_analysis/telescope/telescope.py
+++ b/beam_telescope_analysis/telescope/telescope.py
@@ -29,7 +29,7 @@ def open_configuation(configuation):
                 configuration_dict.update(safe_load(f))
         else:  # YAML string
             configuration_dict.update(safe_load(configuation))
-    elif isinstance(configuation, file):  # parse the first YAML document in a stream
+    elif hasattr(configuation, 'read'):  # parse the first YAML document in a stream
         logging.info('Loading configuration from file %s', os.path.abspath(configuation.name))
         configuration_dict.update(safe_load(configuation))
     elif isinstance(configuation, (dict, OrderedDict)):  # conf is already a dict
-- 
2.43.0


From e5f585e1dc558e470eacdf6eec5eff6c883b2661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:17 +0000
Subject: [PATCH 09/57] fix: use the shape parameter of np.unravel_index

---
 beam_telescope_analysis/result_analysis.py  | 4 ++--
 beam_telescope_analysis/tools/plot_utils.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index faf38fb..3512436 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1431,10 +1431,10 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             # actual_tracks = np.repeat(tracks_chunk[select_valid_hit][selected_indices], tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit][selected_indices])
                             # expand size of index array so that the length matches the cluster array
                             actual_bin_center_indices = np.repeat(tracks_with_hits_to_bin_center_index[selected_indices], tracks_chunk['n_hits_dut_%d' % actual_dut_index][select_valid_hit][selected_indices])
-                            actual_bin_center_col_row_pair = np.column_stack(np.unravel_index(actual_bin_center_indices, dims=(count_pixel_hits_2d_hist.shape[0], count_pixel_hits_2d_hist.shape[1])))
+                            actual_bin_center_col_row_pair = np.column_stack(np.unravel_index(actual_bin_center_indices, shape=(count_pixel_hits_2d_hist.shape[0], count_pixel_hits_2d_hist.shape[1])))
                             # get the corresponding pixel center for each track
                             actual_pixel_center_indices = bin_center_to_pixel_center[actual_bin_center_indices]
-                            actual_pixel_center_col_row_pair = np.column_stack(np.unravel_index(indices=actual_pixel_center_indices, dims=(actual_dut.n_columns, actual_dut.n_rows)))
+                            actual_pixel_center_col_row_pair = np.column_stack(np.unravel_index(indices=actual_pixel_center_indices, shape=(actual_dut.n_columns, actual_dut.n_rows)))
                             # get the corresponding cluster hits
                             actual_cluster_hits_col_row_pair = np.column_stack((actual_cluster_hits['column'] - 1, actual_cluster_hits['row'] - 1))
                             # calculate the relative index
diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index 0a56dc2..d082270 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -1472,7 +1472,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
             bin_center_data_sel = np.column_stack((np.ravel(x_meshgrid[select_bins]), np.ravel(y_meshgrid[select_bins])))
             bin_indices_sel = bin_indices[np.ravel(select_bins)]
             _, bin_center_to_pixel_center_sel = pixel_center_kd_tree.query(bin_center_data_sel)
-            max_pixel_index_hist = np.column_stack(np.unravel_index(np.argmax(count_pixel_hits_2d_hist.reshape(count_pixel_hits_2d_hist.shape[0] * count_pixel_hits_2d_hist.shape[1], -1), axis=1), dims=count_pixel_hits_2d_hist.shape[2:]))
+            max_pixel_index_hist = np.column_stack(np.unravel_index(np.argmax(count_pixel_hits_2d_hist.reshape(count_pixel_hits_2d_hist.shape[0] * count_pixel_hits_2d_hist.shape[1], -1), axis=1), shape=count_pixel_hits_2d_hist.shape[2:]))
             max_pixel_index_hist[np.ravel(select_bins), 0] -= int(count_pixel_hits_2d_hist.shape[2] / 2)
             max_pixel_index_hist[np.ravel(select_bins), 1] -= int(count_pixel_hits_2d_hist.shape[3] / 2)
             pixel_indices = np.indices((actual_dut.n_columns, actual_dut.n_rows)).reshape(2, -1).T
-- 
2.43.0


From 8a9cd034d1044f5127d16ab3b46917dfc84a05e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:17 +0000
Subject: [PATCH 10/57] fix: efficiency_plots picks the pixel colors from the
 color indices

---
 beam_telescope_analysis/tools/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index d082270..5dac23b 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -1524,7 +1524,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 if count_index_array[pixel_index]:
                     ax.plot(pixel_position[0], pixel_position[1], markersize=1.0, marker='o', alpha=1.0, color=rgb_colors[color_index_array[pixel_index]], markeredgecolor='k', markeredgewidth=0.1)
             _ = voronoi_plot_2d(ax=ax, ridge_vertices=ridge_vertices, vertices=vertices, points=pixel_center_data, show_points=False, line_width=mesh_line_width, line_alpha=mesh_alpha, line_color=mesh_color, point_size=mesh_point_size, point_alpha=mesh_alpha, point_color=mesh_color)
-            effective_color_2d = colors[color_index_array[effective_pixels_2d]]
+            effective_color_2d = color_indices[color_index_array[effective_pixels_2d]]
             effective_color_2d = np.ma.masked_where(effective_pixels_2d == -1, effective_color_2d)
             plot_2d_pixel_hist(fig, ax, effective_color_2d.T, hist_extent, title='Effective pixel locations\nfor %s' % actual_dut.name, x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=0.0, z_max=1.0, cmap=cmap, show_colorbar=False)
             rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
-- 
2.43.0


From 22f0cb8242ef0685cd09e012d7cac6900047b5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 11/57] fix: efficiency_plots does not use the removed np.int

---
 beam_telescope_analysis/tools/plot_utils.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index 5dac23b..854d981 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -2282,10 +2282,10 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 for w, loc in zip(widths_in_pixel_regions, center_location_in_pixel_regions):
                     center_region_indices = np.ceil((np.array(loc) - np.array([efficiency_regions_in_pixel_hist_extent[0], efficiency_regions_in_pixel_hist_extent[2]])) / in_pixel_resolution)
                     center_region_extent = np.array(w) / in_pixel_resolution
-                    center_region_selection = [np.int(np.ceil(center_region_indices[0]) - np.ceil(center_region_extent[0] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[0]) + np.ceil(center_region_extent[0] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[1]) - np.ceil(center_region_extent[1] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[1]) + np.ceil(center_region_extent[1] / 2.0))]
+                    center_region_selection = [int(np.ceil(center_region_indices[0]) - np.ceil(center_region_extent[0] / 2.0)),
+                                               int(np.ceil(center_region_indices[0]) + np.ceil(center_region_extent[0] / 2.0)),
+                                               int(np.ceil(center_region_indices[1]) - np.ceil(center_region_extent[1] / 2.0)),
+                                               int(np.ceil(center_region_indices[1]) + np.ceil(center_region_extent[1] / 2.0))]
                     rect = matplotlib.patches.Rectangle((loc[0] - w[0] / 2.0, loc[1] - w[1] / 2.0), w[0], w[1], linewidth=1.2, edgecolor=in_pixel_mesh_color, facecolor='none')
                     ax.add_patch(rect)
                     mean = np.mean(efficiency_regions_stat_in_pixel_efficiency_2d_hist[region_index][center_region_selection[0]:center_region_selection[1], center_region_selection[2]:center_region_selection[3]].compressed())
@@ -2319,10 +2319,10 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 for w, loc in zip(widths_in_pixel_regions, center_location_in_pixel_regions):
                     center_region_indices = np.ceil((np.array(loc) - np.array([efficiency_regions_in_pixel_hist_extent[0], efficiency_regions_in_pixel_hist_extent[2]])) / in_pixel_resolution)
                     center_region_extent = np.array(w) / in_pixel_resolution
-                    center_region_selection = [np.int(np.ceil(center_region_indices[0]) - np.ceil(center_region_extent[0] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[0]) + np.ceil(center_region_extent[0] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[1]) - np.ceil(center_region_extent[1] / 2.0)),
-                                               np.int(np.ceil(center_region_indices[1]) + np.ceil(center_region_extent[1] / 2.0))]
+                    center_region_selection = [int(np.ceil(center_region_indices[0]) - np.ceil(center_region_extent[0] / 2.0)),
+                                               int(np.ceil(center_region_indices[0]) + np.ceil(center_region_extent[0] / 2.0)),
+                                               int(np.ceil(center_region_indices[1]) - np.ceil(center_region_extent[1] / 2.0)),
+                                               int(np.ceil(center_region_indices[1]) + np.ceil(center_region_extent[1] / 2.0))]
                     rect = matplotlib.patches.Rectangle((loc[0] - w[0] / 2.0, loc[1] - w[1] / 2.0), w[0], w[1], linewidth=1.2, edgecolor=in_pixel_mesh_color, facecolor='none')
                     ax.add_patch(rect)
                     mean = np.mean(efficiency_regions_stat_in_pixel_efficiency_2d_hist[region_index][center_region_selection[0]:center_region_selection[1], center_region_selection[2]:center_region_selection[3]].compressed())
-- 
2.43.0


From 1c8c4ff76bcf7552aae0a5417f9b18f9659a217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 12/57] fix: _duts_alignment_kalman reads the telescope before
 it is used

---
 beam_telescope_analysis/dut_alignment.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 86be4cb..2665785 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1323,7 +1323,8 @@ def _duts_alignment(output_telescope_configuration, merged_file, align_duts, pre
 def _duts_alignment_kalman(telescope_configuration, output_alignment_file, input_track_candidates_file, alignment_parameters, select_telescope_duts, select_duts=None, select_hit_duts=None, select_fit_duts=None, min_track_hits=None, exclude_dut_hit=False, beam_energy=2500, particle_mass=0.511, scattering_planes=None, track_chi2=25.0, iteration_index=0, annealing_factor=10000, annealing_tracks=5000, max_tracks=10000, alignment_parameters_errors=None, plot=True, chunk_size=1000):
     ''' Function which performs actual Kalman Filter alignment loop and calls plotting in the end.
     '''
-
+    telescope = Telescope(telescope_configuration)
+    n_duts = len(telescope)
 
     # Create track, hit selection
     if select_fit_duts is None:  # If None: use all DUTs
@@ -1587,9 +1588,6 @@ def _duts_alignment_kalman(telescope_configuration, output_alignment_file, input
 
         pbar.close()
 
-    telescope = Telescope(telescope_configuration)
-    n_duts = len(telescope)
-
     logging.info('= Alignment step 2 - Fitting tracks for %d DUTs =', len(select_duts))
     if iteration_index == 0:  # clean up before starting alignment. In case different sets of DUTs are aligned after each other only clean up once.
         if os.path.exists(output_alignment_file):
-- 
2.43.0


From 793135672ba6b7f7eeec5d672ef3877f5ba65d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 13/57] fix: calculate_purity passes the telescope to
 purity_plots

---
 beam_telescope_analysis/result_analysis.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 3512436..e7500f2 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -2223,6 +2223,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                     raise RuntimeError('No pure hit for DUT%d, consider changing cut values or check track building!', actual_dut_index)
 
                 plot_utils.purity_plots(
+                    telescope,
                     total_pure_hit_hist,
                     total_hit_hist, purity,
                     purity_sensor,
-- 
2.43.0


From f1f6c6285f1dab2c42dcbcca23e892df1f275ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 14/57] fix: calculate_purity formats the log message with both
 values

---
 beam_telescope_analysis/result_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index e7500f2..a4cd0cf 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -2233,7 +2233,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                     cut_distance=cut_distance,
                     output_pdf=output_pdf)
 
-                logging.info('Purity =  %1.4f +- %1.4f%%' % np.ma.mean(purity), np.ma.std(purity))
+                logging.info('Purity =  %1.4f +- %1.4f%%' % (np.ma.mean(purity), np.ma.std(purity)))
                 purities.append(np.ma.mean(purity))
                 purities_sensor_mean.append(np.ma.mean(purity_sensor))
 
-- 
2.43.0


From f2b961412e29d341fdb9ba86d8a88bddf1803de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:34 +0000
Subject: [PATCH 15/57] fix: calculate_purity does not truncate the purity to
 integers

---
 beam_telescope_analysis/result_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index a4cd0cf..681f974 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -2213,7 +2213,7 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                         continue
                     total_pure_hit_hist += (np.histogram2d(pure_hits_local[:, 0], pure_hits_local[:, 1], bins=(n_bin_x, n_bin_y), range=[actual_dut.x_extent(), actual_dut.y_extent()])[0]).astype(np.uint32)
 
-                purity = np.zeros_like(total_hit_hist)
+                purity = np.zeros_like(total_hit_hist, dtype=np.float64)
                 purity[total_hit_hist != 0] = total_pure_hit_hist[total_hit_hist != 0].astype(np.float64) / total_hit_hist[total_hit_hist != 0].astype(np.float64) * 100.0
                 purity = np.ma.array(purity, mask=total_hit_hist < minimum_hit_density)
                 # calculate sensor purity by weighting each pixel purity with total number of hits within the pixel
-- 
2.43.0


From 0a6fe5b82930ed3ab43e8961b6a18dcf39b57b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:27 +0000
Subject: [PATCH 16/57] fix: SMC raises errors of its reader, worker and writer
 threads

---
 beam_telescope_analysis/tools/smc.py | 39 +++++++++++++++++++---------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 9f0f373..ef72263 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -159,9 +159,19 @@ class SMC(object):
         self.data_deque = deque()
         self.res_deque = deque()
         self.reader_thread = None
+        self.exception = None
         # compute data
         self.split_map_combine()
 
+    def _run_thread(self, target):
+        ''' Run the thread target. Stop all threads and keep the exception if it fails. '''
+        try:
+            target()
+        except BaseException as e:
+            if self.exception is None:
+                self.exception = e
+            self.force_stop.set()
+
     def _reader(self):
         if self.input_filename == self.output_filename:
             # wait for output file to be ready
@@ -320,26 +330,35 @@ class SMC(object):
                         shape=hists[i].shape,
                         **curr_node_desc)
                     out_hist[:] = hists[i]
-        try:
-            self.out_file.close()
-        except Exception:
-            self.force_stop.set()
-            raise
 
     def split_map_combine(self):
         self.pool = Pool(self.n_cores)
+        try:
+            self._process_data()
+        finally:
+            if self.out_file is not None:
+                self.out_file.close()
+            if self.exception is None:
+                self.pool.close()
+            else:
+                self.pool.terminate()
+            self.pool.join()
+            self.pool = None
+        if self.exception is not None:
+            raise self.exception
 
+    def _process_data(self):
         self.out_file_opened.clear()
         self.force_stop.clear()
-        self.writer_thread = Thread(target=self._writer, name='WriterThread')
+        self.writer_thread = Thread(target=self._run_thread, args=(self._writer,), name='WriterThread')
         self.writer_thread.daemon = True
         self.writer_thread.start()
 
-        self.async_worker_thread = Thread(target=self._async_worker, name='AsyncWorkerThread')
+        self.async_worker_thread = Thread(target=self._run_thread, args=(self._async_worker,), name='AsyncWorkerThread')
         self.async_worker_thread.daemon = True
         self.async_worker_thread.start()
 
-        self.reader_thread = Thread(target=self._reader, name='ReaderThread')
+        self.reader_thread = Thread(target=self._run_thread, args=(self._reader,), name='ReaderThread')
         self.reader_thread.daemon = True
         self.reader_thread.start()
 
@@ -352,10 +371,6 @@ class SMC(object):
         self.writer_thread.join()
         self.writer_thread = None
 
-        self.pool.close()
-        self.pool.join()
-        self.pool = None
-
 
 if __name__ == '__main__':
     pass
-- 
2.43.0


From 067d55a6657d1b85cd1220aba6a5fdaaf664ba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 17/57] fix: SMC closes the input file when reading fails

---
 beam_telescope_analysis/tools/smc.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index ef72263..a1023be 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -186,28 +186,18 @@ class SMC(object):
                 raise
         try:
             node = in_file.get_node(in_file.root, self.node_name)
-        except Exception:
-            self.force_stop.set()
-            raise
-        gen_data = analysis_utils.data_aligned_at_events(node, chunk_size=self.chunk_size)
-        while not self.force_stop.wait(0.01):
-            try:
+            gen_data = analysis_utils.data_aligned_at_events(node, chunk_size=self.chunk_size)
+            while not self.force_stop.wait(0.01):
                 try:
                     data = next(gen_data)[0]
                 except StopIteration:
                     break
-            except Exception:
-                self.force_stop.set()
-                raise
-            self.data_deque.append(data)
-            while len(self.data_deque) >= 1 and not self.force_stop.wait(0.01):
-                pass
-        if self.input_filename != self.output_filename:
-            try:
+                self.data_deque.append(data)
+                while len(self.data_deque) >= 1 and not self.force_stop.wait(0.01):
+                    pass
+        finally:
+            if self.input_filename != self.output_filename:
                 in_file.close()
-            except Exception:
-                self.force_stop.set()
-                raise
         self.data_deque.append(None)
 
     def _async_worker(self):
-- 
2.43.0


From c0de70bd8b43af87e0b9e36cd9a56857af0cbd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 18/57] fix: SMC does not mix up the bins when histograms of
 different shape are added

---
 beam_telescope_analysis/tools/smc.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index a1023be..63532da 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -290,11 +290,12 @@ class SMC(object):
                 else:
                     # Check if array needs to be resized
                     new_shape = np.maximum(hists[i].shape, res_data[i].shape)
-                    hists[i].resize(new_shape)
-                    # Copym resize and add array to result
-                    hist_copy = res_data[i].copy()
-                    hist_copy.resize(new_shape)
-                    hists[i] += hist_copy
+                    if not np.array_equal(hists[i].shape, new_shape):
+                        resized_hist = np.zeros(new_shape, dtype=hists[i].dtype)
+                        resized_hist[tuple(slice(n) for n in hists[i].shape)] = hists[i]
+                        hists[i] = resized_hist
+                    # Add array to result
+                    hists[i][tuple(slice(n) for n in res_data[i].shape)] += res_data[i]
 
         if not self.force_stop.is_set():
             for i, curr_node_desc in enumerate(self.node_desc):
-- 
2.43.0


From 4ebd16ebf6ff65296203658c9ef14684b86295c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 19/57] fix: SMC does not change the node description of the
 caller

---
 beam_telescope_analysis/tools/smc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 63532da..b4e4d22 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -97,7 +97,7 @@ class SMC(object):
         node_desc = {} if node_desc is None else node_desc
         if not isinstance(node_desc, (list, tuple)):
             node_desc = (node_desc,)
-        self.node_desc = node_desc
+        self.node_desc = [dict(curr_node_desc) for curr_node_desc in node_desc]
         self.node_name = None
         self.chunk_size = chunk_size
         self.mode = mode
-- 
2.43.0


From 63375c54a064c4b6904511ca65a1118009274a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:11 +0000
Subject: [PATCH 20/57] fix: SMC does not fail on an empty input table

---
 beam_telescope_analysis/tools/smc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index b4e4d22..91298f9 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -297,9 +297,9 @@ class SMC(object):
                     # Add array to result
                     hists[i][tuple(slice(n) for n in res_data[i].shape)] += res_data[i]
 
-        if not self.force_stop.is_set():
+        if not self.force_stop.is_set() and not init:
             for i, curr_node_desc in enumerate(self.node_desc):
-                if res_data[i].dtype.names:  # Recarray
+                if out_tables[i] is not None:  # Recarray
                     # rename temporary node
                     try:
                         self.out_file.remove_node(self.out_file.root, name=curr_node_desc["name"][:-4])
-- 
2.43.0


From 4cf12b1ca9920aa77db4e12ac330a2df5a24434f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 21/57] fix: prealign closes the PDF file when an error occurs

---
 beam_telescope_analysis/dut_alignment.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 2665785..47f674c 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -5,6 +5,7 @@ import logging
 import sys
 import os
 from collections.abc import Iterable
+from contextlib import nullcontext
 import math
 
 import tables as tb
@@ -222,12 +223,7 @@ def prealign(telescope_configuration, input_correlation_file, output_telescope_c
     else:
         select_duts = list(set(select_duts) - set([select_reference_dut]))
 
-    if plot is True:
-        output_pdf = PdfPages(os.path.splitext(input_correlation_file)[0] + '_prealigned.pdf', keep_empty=False)
-    else:
-        output_pdf = None
-
-    with tb.open_file(input_correlation_file, mode="r") as in_file_h5:
+    with (PdfPages(os.path.splitext(input_correlation_file)[0] + '_prealigned.pdf', keep_empty=False) if plot is True else nullcontext()) as output_pdf, tb.open_file(input_correlation_file, mode="r") as in_file_h5:
         # loop over DUTs for pre-alignment
         for actual_dut_index in select_duts:
             actual_dut = telescope[actual_dut_index]
@@ -380,9 +376,6 @@ def prealign(telescope_configuration, input_correlation_file, output_telescope_c
 
     telescope.save_configuration(configuration_file=output_telescope_configuration)
 
-    if output_pdf is not None:
-        output_pdf.close()
-
     return output_telescope_configuration
 
 
-- 
2.43.0


From c15163c0f0c7de279e4cbf643fe9296fefc3a7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 22/57] fix: calculate_residuals closes the PDF file when an
 error occurs

---
 beam_telescope_analysis/result_analysis.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 681f974..53fee26 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -3,6 +3,7 @@ from __future__ import division
 
 import logging
 from collections.abc import Iterable
+from contextlib import nullcontext
 import os.path
 import math
 
@@ -59,12 +60,7 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
     if output_residuals_file is None:
         output_residuals_file = os.path.splitext(input_tracks_file)[0] + '_residuals.h5'
 
-    if plot is True:
-        output_pdf = PdfPages(os.path.splitext(output_residuals_file)[0] + '.pdf', keep_empty=False)
-    else:
-        output_pdf = None
-
-    with tb.open_file(input_tracks_file, mode='r') as in_file_h5:
+    with (PdfPages(os.path.splitext(output_residuals_file)[0] + '.pdf', keep_empty=False) if plot is True else nullcontext()) as output_pdf, tb.open_file(input_tracks_file, mode='r') as in_file_h5:
         with tb.open_file(output_residuals_file, mode='w') as out_file_h5:
             for actual_dut_index in select_duts:
                 actual_dut = telescope[actual_dut_index]
@@ -565,9 +561,6 @@ def calculate_residuals(telescope_configuration, input_tracks_file, select_duts,
                     z_max=z_max,
                     output_pdf=output_pdf)
 
-    if output_pdf is not None:
-        output_pdf.close()
-
     return output_residuals_file
 
 
-- 
2.43.0


From dba14ac4b339ded4c6a8364d16c8e7678cddf484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 23/57] fix: calculate_efficiency closes the PDF and cluster
 files when an error occurs

---
 beam_telescope_analysis/result_analysis.py | 24 +++++-----------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 53fee26..be0cc83 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -3,7 +3,7 @@ from __future__ import division
 
 import logging
 from collections.abc import Iterable
-from contextlib import nullcontext
+from contextlib import nullcontext, ExitStack
 import os.path
 import math
 
@@ -790,19 +790,14 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
     if output_efficiency_file is None:
         output_efficiency_file = os.path.splitext(input_tracks_file)[0] + '_efficiency.h5'
 
-    if plot is True:
-        output_pdf = PdfPages(os.path.splitext(output_efficiency_file)[0] + '.pdf', keep_empty=False)
-    else:
-        output_pdf = None
-
     if input_cluster_files is not None and len(select_duts) != len(input_cluster_files):
         raise ValueError('Parameter "input_cluster_files" has wrong length.')
 
-    with tb.open_file(input_tracks_file, mode='r') as in_file_h5:
-        with tb.open_file(output_efficiency_file, mode='w') as out_file_h5:
+    with (PdfPages(os.path.splitext(output_efficiency_file)[0] + '.pdf', keep_empty=False) if plot is True else nullcontext()) as output_pdf, tb.open_file(input_tracks_file, mode='r') as in_file_h5:
+        with tb.open_file(output_efficiency_file, mode='w') as out_file_h5, ExitStack() as cluster_files:
             for index, actual_dut_index in enumerate(select_duts):
                 if input_cluster_files is not None and input_cluster_files[index] is not None:
-                    in_cluster_file_h5 = tb.open_file(filename=input_cluster_files[index], mode='r')
+                    in_cluster_file_h5 = cluster_files.enter_context(tb.open_file(filename=input_cluster_files[index], mode='r'))
                 else:
                     in_cluster_file_h5 = None
                 actual_dut = telescope[actual_dut_index]
@@ -2073,16 +2068,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             shape=stat_in_pixel_cluster_shape_2d_hists[actual_region_index].shape)
                         out_stat_in_pixel_cluster_shape_2d_hists[:] = stat_in_pixel_cluster_shape_2d_hists[actual_region_index]
 
-                if in_cluster_file_h5:
-                    try:
-                        in_cluster_file_h5.close()
-                    except Exception:
-                        pass
-                    finally:
-                        in_cluster_file_h5 = None
-
-    if output_pdf is not None:
-        output_pdf.close()
+                cluster_files.close()
 
     return output_efficiency_file
 
-- 
2.43.0


From 3af596713f65a5d89ec731ffbbbd1822db1da4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 24/57] fix: calculate_purity closes the PDF file when an error
 occurs

---
 beam_telescope_analysis/result_analysis.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index be0cc83..07712dd 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -2106,16 +2106,11 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
     if output_purity_file is None:
         output_purity_file = os.path.splitext(input_tracks_file)[0] + '_purity.h5'
 
-    if plot is True:
-        output_pdf = PdfPages(os.path.splitext(output_purity_file)[0] + '.pdf', keep_empty=False)
-    else:
-        output_pdf = None
-
     purities = []
     purities_sensor_mean = []
     pure_hits = []
     total_hits = []
-    with tb.open_file(input_tracks_file, mode='r') as in_file_h5:
+    with (PdfPages(os.path.splitext(output_purity_file)[0] + '.pdf', keep_empty=False) if plot is True else nullcontext()) as output_pdf, tb.open_file(input_tracks_file, mode='r') as in_file_h5:
         with tb.open_file(output_purity_file, mode='w') as out_file_h5:
             for index, actual_dut_index in enumerate(select_duts):
                 actual_dut = telescope[actual_dut_index]
@@ -2279,9 +2274,6 @@ def calculate_purity(telescope_configuration, input_tracks_file, select_duts, bi
                 out_pure_hits[:] = total_pure_hit_hist.T
                 out_total_total[:] = total_hit_hist.T
 
-    if output_pdf is not None:
-        output_pdf.close()
-
     return purities, pure_hits, total_hits, purities_sensor_mean
 
 
-- 
2.43.0


From 84ce02213789840dfdda9bcd62784dc1f46c3b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 25/57] fix: fit_tracks closes the PDF file and the process
 pool when an error occurs

---
 beam_telescope_analysis/track_analysis.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index bdae841..ad10ede 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -6,6 +6,7 @@ import os.path
 from multiprocessing import Pool, cpu_count
 import math
 from collections.abc import Iterable
+from contextlib import nullcontext
 
 import tables as tb
 import numpy as np
@@ -639,11 +640,6 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
 
     if output_tracks_file is None:
         output_tracks_file = os.path.join(os.path.dirname(input_track_candidates_file), 'Tracks_%s.h5' % method.title())
-    if plot:
-        output_pdf_file = os.path.splitext(output_tracks_file)[0] + '.pdf'
-        output_pdf = PdfPages(output_pdf_file, keep_empty=False)
-    else:
-        output_pdf = None
 
     if select_duts is None:
         select_duts = list(range(n_duts))  # standard setting: fit tracks for all DUTs
@@ -765,8 +761,7 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
         raise ValueError("Parameter min_track_hits has the wrong length.")
 
     fitted_duts = []
-    pool = Pool()
-    with tb.open_file(input_track_candidates_file, mode='r') as in_file_h5:
+    with (PdfPages(os.path.splitext(output_tracks_file)[0] + '.pdf', keep_empty=False) if plot else nullcontext()) as output_pdf, Pool() as pool, tb.open_file(input_track_candidates_file, mode='r') as in_file_h5:
         with tb.open_file(output_tracks_file, mode='w') as out_file_h5:
             for fit_dut_index, actual_fit_dut in enumerate(select_duts):  # Loop over the DUTs where tracks shall be fitted for
                 # Test whether other DUTs have identical tracks
@@ -1020,12 +1015,6 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
                 except ValueError:
                     logging.error('could not plot fit statistics')
 
-    pool.close()
-    pool.join()
-
-    if output_pdf is not None:
-        output_pdf.close()
-
     if plot:
         plot_utils.plot_track_chi2(input_tracks_file=output_tracks_file, output_pdf_file=None, dut_names=telescope.dut_names, chunk_size=chunk_size)
 
-- 
2.43.0


From 256265c2e1bb397c320436f07d0319a470608730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 26/57] fix: correlate terminates the process pool when an
 error occurs

---
 beam_telescope_analysis/hit_analysis.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 79312bf..573fd87 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1341,7 +1341,7 @@ def correlate(telescope_configuration, input_files, output_correlation_file=None
                 # Store the loop indices for speed up
                 start_indices.append(None)
 
-            with tb.open_file(input_files[ref_file_index], mode='r') as in_file_h5:  # Open reference hit/cluster file
+            with Pool() as pool, tb.open_file(input_files[ref_file_index], mode='r') as in_file_h5:  # Open reference hit/cluster file
                 # Check for whether hits or clusters are used
                 try:
                     ref_node = in_file_h5.root.Clusters
@@ -1357,7 +1357,6 @@ def correlate(telescope_configuration, input_files, output_correlation_file=None
 
                 pbar = tqdm(total=ref_node.shape[0], ncols=80)
 
-                pool = Pool()
                 # Loop over the hits/clusters of reference DUT
                 for ref_data_chunk, ref_read_index in analysis_utils.data_aligned_at_events(ref_node, chunk_size=chunk_size):
                     actual_event_numbers = ref_data_chunk['event_number']
@@ -1392,9 +1391,6 @@ def correlate(telescope_configuration, input_files, output_correlation_file=None
                     pbar.update(ref_data_chunk.shape[0])
                 pbar.close()
 
-                pool.close()
-                pool.join()
-
             # Store the correlation histograms
             for index, dut_index in enumerate(select_duts_removed):
                 # x
-- 
2.43.0


From 6b985c5b2fb86ace38234375965f83f18cb69c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:59 +0000
Subject: [PATCH 27/57] fix: SimulateData closes the output files when an error
 occurs

---
 .../tools/simulate_data.py                    | 75 +++++++++----------
 1 file changed, 37 insertions(+), 38 deletions(-)

diff --git a/beam_telescope_analysis/tools/simulate_data.py b/beam_telescope_analysis/tools/simulate_data.py
index 978f60a..e091e3e 100644
--- a/beam_telescope_analysis/tools/simulate_data.py
+++ b/beam_telescope_analysis/tools/simulate_data.py
@@ -16,6 +16,7 @@ from __future__ import division
 
 import logging
 import math
+from contextlib import ExitStack
 
 import numpy as np
 import tables as tb
@@ -461,46 +462,44 @@ class SimulateData(object):
         # Create output h5 files with emtpy hit ta
         output_files = []
         hit_tables = []
-        for dut_index in range(self._n_duts):
-            output_files.append(
-                tb.open_file(base_file_name + '_DUT%d.h5' % dut_index, mode='w'))
-            hit_tables.append(output_files[dut_index].create_table(
-                where=output_files[dut_index].root,
-                name='Hits',
-                description=self._hit_dtype,
-                title='Simulated hits for test beam analysis',
-                filters=tb.Filters(
-                    complib='blosc',
-                    complevel=5,
-                    fletcher32=False)))
-
-        if n_events * self.tracks_per_event > 100000:
-            show_progress = True
-            pbar = tqdm(total=len(range(0, n_events, chunk_size)), ncols=80)
-        else:
-            show_progress = False
-        # Fill output files in chunks
-        for chunk_index, _ in enumerate(range(0, n_events, chunk_size)):
-            actual_events, actual_digitized_hits = self._create_data(
-                start_event_number=chunk_index * chunk_size, n_events=chunk_size)
+        with ExitStack() as open_files:
             for dut_index in range(self._n_duts):
-                actual_dut_events, actual_dut_hits = actual_events[
-                    dut_index], actual_digitized_hits[dut_index]
-                actual_hits = np.zeros(
-                    shape=actual_dut_events.shape[0], dtype=self._hit_dtype)
-                actual_hits['event_number'] = actual_dut_events
-                actual_hits['column'] = actual_dut_hits.T[0]
-                actual_hits['row'] = actual_dut_hits.T[1]
-                actual_hits['charge'] = actual_dut_hits.T[
-                    2] / 10.  # One charge LSB corresponds to 10 electrons
-                hit_tables[dut_index].append(actual_hits)
+                output_files.append(open_files.enter_context(
+                    tb.open_file(base_file_name + '_DUT%d.h5' % dut_index, mode='w')))
+                hit_tables.append(output_files[dut_index].create_table(
+                    where=output_files[dut_index].root,
+                    name='Hits',
+                    description=self._hit_dtype,
+                    title='Simulated hits for test beam analysis',
+                    filters=tb.Filters(
+                        complib='blosc',
+                        complevel=5,
+                        fletcher32=False)))
+
+            if n_events * self.tracks_per_event > 100000:
+                show_progress = True
+                pbar = tqdm(total=len(range(0, n_events, chunk_size)), ncols=80)
+            else:
+                show_progress = False
+            # Fill output files in chunks
+            for chunk_index, _ in enumerate(range(0, n_events, chunk_size)):
+                actual_events, actual_digitized_hits = self._create_data(
+                    start_event_number=chunk_index * chunk_size, n_events=chunk_size)
+                for dut_index in range(self._n_duts):
+                    actual_dut_events, actual_dut_hits = actual_events[
+                        dut_index], actual_digitized_hits[dut_index]
+                    actual_hits = np.zeros(
+                        shape=actual_dut_events.shape[0], dtype=self._hit_dtype)
+                    actual_hits['event_number'] = actual_dut_events
+                    actual_hits['column'] = actual_dut_hits.T[0]
+                    actual_hits['row'] = actual_dut_hits.T[1]
+                    actual_hits['charge'] = actual_dut_hits.T[
+                        2] / 10.  # One charge LSB corresponds to 10 electrons
+                    hit_tables[dut_index].append(actual_hits)
+                if show_progress:
+                    pbar.update(1)
             if show_progress:
-                pbar.update(1)
-        if show_progress:
-            pbar.close()
-
-        for output_file in output_files:
-            output_file.close()
+                pbar.close()
 
     def _create_tracks(self, n_tracks):
         '''Creates tracks with gaussian distributed angles at gaussian distributed positions at z=0.
-- 
2.43.0


From b3f6b73b819c0b2786399947ff3372542383e9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:42 +0000
Subject: [PATCH 28/57] fix: combine_files must not overwrite one of its input
 files

---
 beam_telescope_analysis/tools/data_selection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 0e57cb3..bfd1eba 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -53,6 +53,8 @@ def combine_files(input_files, output_file=None, names=None, event_number_offset
     if not output_file:
         prefix = os.path.commonprefix(input_files)
         output_file = os.path.splitext(prefix)[0] + '_combined.h5'
+    if output_file in input_files:
+        raise ValueError('Output file "%s" must be different from the input files.' % output_file)
 
     # convert to list
     if names is not None and not isinstance(names, (list, tuple, set)):
-- 
2.43.0


From 0d442d546efbabb76b9e49ece640b04b147d7fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 29/57] fix: a DUT number equal to the number of DUTs is not a
 valid selection

---
 beam_telescope_analysis/hit_analysis.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 573fd87..71fca6a 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -62,7 +62,7 @@ def convert(telescope_configuration, input_hit_files, output_hit_files=None, sel
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Converting coordinates of %d DUTs ===', len(select_duts))
 
@@ -213,7 +213,7 @@ def check(telescope_configuration, input_hit_files, output_check_files=None, sel
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Checking hit files of %d DUTs ===', len(select_duts))
 
@@ -468,7 +468,7 @@ def mask(telescope_configuration, input_hit_files, output_mask_files=None, selec
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Masking pixels of %d DUTs ===', len(select_duts))
 
@@ -708,7 +708,7 @@ def cluster(telescope_configuration, input_hit_files, input_mask_files=None, out
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Clustering hits of %d DUTs ===', len(select_duts))
 
@@ -1276,7 +1276,7 @@ def correlate(telescope_configuration, input_files, output_correlation_file=None
         select_duts = list(range(len(telescope)))
     if not isinstance(select_duts, (list, tuple)):
         raise ValueError('Parameter "select_duts" is not a list.')
-    if max(select_duts) > n_duts or min(select_duts) < 0:
+    if max(select_duts) >= n_duts or min(select_duts) < 0:
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Correlating %d DUTs ===', len(select_duts))
 
-- 
2.43.0


From 332aa8a44772cda8d18fcec6ba3d1b60bec25efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:03 +0000
Subject: [PATCH 30/57] fix: hit analysis steps process the selected DUTs in
 the order of the selection

---
 beam_telescope_analysis/hit_analysis.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 71fca6a..38bb6ad 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -66,7 +66,8 @@ def convert(telescope_configuration, input_hit_files, output_hit_files=None, sel
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Converting coordinates of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    telescope_duts = list(telescope)
+    selected_telescope_duts = [telescope_duts[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_hit_files is not None and len(select_duts) != len(output_hit_files):
@@ -217,7 +218,8 @@ def check(telescope_configuration, input_hit_files, output_check_files=None, sel
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Checking hit files of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    telescope_duts = list(telescope)
+    selected_telescope_duts = [telescope_duts[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_check_files is not None and len(select_duts) != len(output_check_files):
@@ -472,7 +474,8 @@ def mask(telescope_configuration, input_hit_files, output_mask_files=None, selec
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Masking pixels of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    telescope_duts = list(telescope)
+    selected_telescope_duts = [telescope_duts[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if output_mask_files is not None and len(select_duts) != len(output_mask_files):
@@ -712,7 +715,8 @@ def cluster(telescope_configuration, input_hit_files, input_mask_files=None, out
         raise ValueError('Parameter "select_duts" contains ivalid values.')
     logging.info('=== Clustering hits of %d DUTs ===', len(select_duts))
 
-    selected_telescope_duts = [dut for i, dut in enumerate(telescope) if i in select_duts]
+    telescope_duts = list(telescope)
+    selected_telescope_duts = [telescope_duts[i] for i in select_duts]
     if len(select_duts) != len(input_hit_files):
         raise ValueError('Parameter "input_hit_files" has wrong length.')
     if input_mask_files is not None and len(select_duts) != len(input_mask_files):
-- 
2.43.0


From 3039615f12e134539498ce77881145a0716bb4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:10 +0000
Subject: [PATCH 31/57] fix: SMC raises an error instead of hanging when the
 function returns None on one core

---
 beam_telescope_analysis/tools/smc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/beam_telescope_analysis/tools/smc.py b/beam_telescope_analysis/tools/smc.py
index 91298f9..4572333 100644
--- a/beam_telescope_analysis/tools/smc.py
+++ b/beam_telescope_analysis/tools/smc.py
@@ -212,6 +212,8 @@ class SMC(object):
                 pass
             if self.n_cores == 1:
                 res = self.func(data, **self.func_kwargs)
+                if res is None:  # None marks the end of the data
+                    raise RuntimeError('Return value of "func" must be numpy.ndarray')
             else:
                 res = apply_async(
                     pool=self.pool,
-- 
2.43.0


From befa64272132fec89edaadff0c1d689f65339fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:35 +0000
Subject: [PATCH 32/57] fix: keep the line endings of geometry_utils.py

---
 .../tools/geometry_utils.py                   | 1038 ++++++++---------
 1 file changed, 519 insertions(+), 519 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index 240a6bf..f07ca7c 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -1,519 +1,519 @@
-''' Helper functions for geometrical operations.
-'''
-from __future__ import division
-
-import logging
-
-import numpy as np
-
-
-def skew(v):
-    matr = np.zeros(np.prod(np.r_[v.shape, 3]))
-    matr[::9] = v.flatten()[::3]
-    matr[4::9] = v.flatten()[1::3]
-    matr[8::9] = v.flatten()[2::3]
-    matr = matr.reshape(np.r_[v.shape, 3])
-
-    if len(v.shape) == 1:
-        matr_skv = np.roll(np.roll(matr, 1, 1), -1, 0)
-        return matr_skv - matr_skv.T
-    else:
-        matr_skv = np.roll(np.roll(matr, 1, 2), -1, 1)
-        return matr_skv - matr_skv.transpose((0, 2, 1))
-
-
-def get_plane_normal(direction_vector_1, direction_vector_2):
-    ''' Normal vector of a plane.
-
-    Plane is define by two non parallel direction vectors within the plane.
-
-    Parameters
-    ----------
-    direction_vector_1 : array
-        Array with x, y and z.
-    direction_vector_2 : array
-        Array with x, y and z.
-
-    Returns
-    -------
-    Array with x, y and z.
-    '''
-    return np.cross(direction_vector_1, direction_vector_2)
-
-
-def get_line_intersections_with_dut(line_origins, line_directions, translation_x, translation_y, translation_z, rotation_alpha, rotation_beta, rotation_gamma):
-    ''' Calculates the intersection of lines with a DUT.
-
-    If there is no intersection point (line is parallel to plane or the line is
-    in the plane) the intersection point is set to nan.
-
-    Notes
-    -----
-    Further information:
-    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
-
-    Parameters
-    ----------
-    line_origins : array
-        A point (x, y and z) on the line for each of the n lines.
-    line_directions : array
-        The direction vector of the line for n lines.
-    translation_x, translation_y, translation_z : float
-        The coordianates of the DUT (in um).
-    rotation_alpha, rotation_beta, rotation_gamma : float
-        The rotation angles of the DUT (in radians).
-
-    Returns
-    -------
-    Array with shape (n, 3) with the intersection point.
-    '''
-    dut_position = np.array([
-        translation_x,
-        translation_y,
-        translation_z],
-        dtype=np.float64)
-    dut_rotation_matrix = rotation_matrix(
-        alpha=rotation_alpha,
-        beta=rotation_beta,
-        gamma=rotation_gamma)
-    basis_global = dut_rotation_matrix.T.dot(np.eye(3, dtype=np.float64))
-    dut_normal = basis_global[2]
-    dut_normal /= np.sqrt(np.dot(dut_normal, dut_normal))
-    if dut_normal[2] < 0:
-        dut_normal = -dut_normal
-    return get_line_intersections_with_plane(
-        line_origins=line_origins,
-        line_directions=line_directions,
-        position_plane=dut_position,
-        normal_plane=dut_normal)
-
-
-def get_line_intersections_with_plane(line_origins, line_directions, position_plane, normal_plane):
-    ''' Calculates the intersection of n lines with one plane.
-
-    If there is no intersection point (line is parallel to plane or the line is
-    in the plane) the intersection point is set to nan.
-
-    Notes
-    -----
-    Further information:
-    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
-
-    Parameters
-    ----------
-    line_origins : array
-        A point (x, y and z) on the line for each of the n lines.
-    line_directions : array
-        The direction vector of the line for n lines.
-    position_plane : array
-        A array (x, y and z) to the plane.
-    normal_plane : array
-        The normal vector (x, y and z) of the plane.
-
-    Returns
-    -------
-    Array with shape (n, 3) with the intersection point.
-    '''
-    # Calculate offsets and extend in missing dimension
-    offsets = position_plane[np.newaxis, :] - line_origins
-
-    # Precalculate to be able to avoid division by 0
-    # (line is parallel to the plane or in the plane)
-    norm_dot_off = np.dot(normal_plane, offsets.T)
-    # Dot product is transformed to be at least 1D for special n = 1
-    norm_dot_dir = np.atleast_1d(np.dot(normal_plane,
-                                        line_directions.T))
-
-    # Initialize result to nan
-    t = np.full_like(norm_dot_off, fill_value=np.nan, dtype=np.float64)
-
-    # Warn if some intersection cannot be calculated
-    if np.any(norm_dot_dir == 0):
-        raise
-        logging.warning('Some line plane intersection could not be calculated')
-
-    # Calculate t scalar for each line simultaniously, avoid division by 0
-    sel = norm_dot_dir != 0
-    t[sel] = norm_dot_off[sel] / norm_dot_dir[sel]
-
-    # Calculate the intersections for each line with the plane
-    intersections = line_origins + line_directions * t[:, np.newaxis]
-
-    return intersections
-
-
-def cartesian_to_spherical(x, y, z):
-    ''' Does a transformation from cartesian to spherical coordinates.
-
-    Convention: r = 0 --> phi = theta = 0
-
-    Parameters
-    ----------
-    x, y, z : float
-        Position in cartesian space.
-
-    Returns
-    -------
-    Spherical coordinates phi, theta and r.
-    '''
-    r = np.sqrt(x * x + y * y + z * z)
-    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = 0
-    theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
-    # Avoid division by zero
-    # https://en.wikipedia.org/wiki/Atan2
-    phi[x != 0] = np.arctan2(y[x != 0], x[x != 0])
-    phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
-    theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
-    return phi, theta, r
-
-
-def spherical_to_cartesian(phi, theta, r):
-    ''' Transformation from spherical to cartesian coordinates.
-
-    Including error checks.
-
-    Parameters
-    ----------
-    phi, theta, r : float
-        Position in spherical space.
-
-    Returns
-    -------
-    Cartesian coordinates x, y and z.
-    '''
-    if np.any(r < 0):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because r < 0')
-    if np.any(theta < 0) or np.any(theta >= np.pi):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because theta exceeds [0, Pi[')
-    if np.any(phi < 0) or np.any(phi >= 2 * np.pi):
-        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because phi exceeds [0, 2*Pi[')
-    x = r * np.cos(phi) * np.sin(theta)
-    y = r * np.sin(phi) * np.sin(theta)
-    z = r * np.cos(theta)
-
-    return x, y, z
-
-
-def rotation_matrix_x(alpha):
-    ''' Calculates the rotation matrix for the rotation around the x axis by an angle alpha in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    alpha : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[1, 0, 0],
-                     [0, np.cos(alpha), -np.sin(alpha)],
-                     [0, np.sin(alpha), np.cos(alpha)]],
-                    dtype=np.float64)
-
-
-def rotation_matrix_y(beta):
-    ''' Calculates the rotation matrix for the rotation around the y axis by an angle beta in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    beta : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[np.cos(beta), 0, np.sin(beta)],
-                     [0, 1, 0],
-                     [-np.sin(beta), 0, np.cos(beta)]],
-                    dtype=np.float64)
-
-
-def rotation_matrix_z(gamma):
-    ''' Calculates the rotation matrix for the rotation around the z axis by an angle gamma in a cartesian right-handed coordinate system.
-
-    Note
-    ----
-    Rotation in a cartesian right-handed coordinate system.
-
-    Parameters
-    ----------
-    gamma : float
-        Angle in radians.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.array([[np.cos(gamma), -np.sin(gamma), 0],
-                     [np.sin(gamma), np.cos(gamma), 0],
-                     [0, 0, 1]],
-                    dtype=np.float64)
-
-
-def rotation_matrix(alpha, beta, gamma):
-    ''' Calculates the rotation matrix for the rotation around the three cartesian
-    axis x, y, z in a right-handed coordinate system.
-
-    Note
-    ----
-    The matrix represents a rotation around the x axis, then the y axis,
-    and then the z axis in a right-handed coordinate system.
-
-    Remember:
-        - Transform to the locale coordinate system before applying rotations
-        - Rotations are associative but not commutative
-
-    Usage
-    -----
-        A rotation by (alpha, beta, gamma) of the vector (x, y, z) in the local
-        coordinate system can be done by:
-            np.dot(rotation_matrix(alpha, beta, gamma), np.array([x, y, z]))
-
-    Parameters
-    ----------
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (3, 3).
-    '''
-    return np.linalg.multi_dot([rotation_matrix_z(gamma=gamma), rotation_matrix_y(beta=beta), rotation_matrix_x(alpha=alpha)])
-
-
-def euler_angles(R):
-    ''' Calculates the Euler angles from rotation matrix R.
-
-    Note
-    ----
-    In a right-handed system. The rotation is done around x then y then z.
-
-    Note:
-        - Transform to the local coordinate system before applying rotations
-        - Rotations are associative but not commutative
-        - In cases of beta = pi/2 and -pi/2, gamma and alpha are linked (gimbal lock).
-          In this case, gamma is set to zero.
-
-    Parameters
-    ----------
-    R : array
-        Rotation matrix.
-
-    Returns
-    -------
-    Returns Euler angles alpha, beta and gamma.
-    '''
-    def is_rotation_matrix(R):
-        norm = np.linalg.norm(np.identity(3, dtype=R.dtype) - np.dot(R.T, R))
-        return np.isclose(0.0, norm)
-
-    if not is_rotation_matrix(R):
-        raise ValueError("%s is not a rotation matrix" % str(R))
-
-    if R[2, 0] == -1:
-        gamma = 0.0  # gimbal lock
-        alpha = gamma + np.arctan2(R[0, 1], R[0, 2])
-        beta = np.pi / 2
-    elif R[2, 0] == 1:
-        gamma = 0.0  # gimbal lock
-        alpha = -gamma + np.arctan2(-R[0, 1], -R[0, 2])
-        beta = -np.pi / 2
-    else:
-        beta_1 = -np.arcsin(R[2, 0])
-        # for very small values use 0.0 and remove minus sign from 0.0
-        if beta_1 <= np.finfo(beta_1.dtype).eps and beta_1 >= -np.finfo(beta_1.dtype).eps:
-            beta_1 = 0.0
-        beta_2 = np.pi - beta_1
-        alpha_1 = np.arctan2(R[2, 1] / np.cos(beta_1), R[2, 2] / np.cos(beta_1))
-        if alpha_1 <= np.finfo(alpha_1.dtype).eps and alpha_1 >= -np.finfo(alpha_1.dtype).eps:
-            alpha_1 = 0.0
-        alpha_2 = np.arctan2(R[2, 1] / np.cos(beta_2), R[2, 2] / np.cos(beta_2))
-        if alpha_2 <= np.finfo(alpha_2.dtype).eps and alpha_2 >= -np.finfo(alpha_2.dtype).eps:
-            alpha_2 = 0.0
-        gamma_1 = np.arctan2(R[1, 0] / np.cos(beta_1), R[0, 0] / np.cos(beta_1))
-        if gamma_1 <= np.finfo(gamma_1.dtype).eps and gamma_1 >= -np.finfo(gamma_1.dtype).eps:
-            gamma_1 = 0.0
-        gamma_2 = np.arctan2(R[1, 0] / np.cos(beta_2), R[0, 0] / np.cos(beta_2))
-        if gamma_2 <= np.finfo(gamma_2.dtype).eps and gamma_2 >= -np.finfo(gamma_2.dtype).eps:
-            gamma_2 = 0.0
-        alpha, beta, gamma = alpha_1, beta_1, gamma_1
-        # # chose the angles with smaller values
-        # if np.sum(np.abs([alpha_1, beta_1, gamma_1])) <= np.sum(np.abs([alpha_2, beta_2, gamma_2])):
-        #     alpha, beta, gamma = alpha_1, beta_1, gamma_1
-        # else:
-        #     alpha, beta, gamma = alpha_2, beta_2, gamma_2
-    return alpha, beta, gamma
-
-
-def translation_matrix(x, y, z):
-    ''' Calculates the translation matrix for the translation in x, y, z in a cartesian right-handed system.
-
-    Note
-    ----
-    Remember: Translations are associative and commutative
-
-    Usage
-    -----
-        A translation of a vector (x, y, z) by dx, dy, dz can be done by:
-          np.dot(translation_matrix(dx, dy, dz), np.array([x, y, z, 1]))
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    translation_matrix = np.eye(4, 4, 0, dtype=np.float64)
-    translation_matrix[3, :3] = np.array([x, y, z], dtype=np.float64)
-
-    return translation_matrix.T
-
-
-def global_to_local_transformation_matrix(x, y, z, alpha, beta, gamma):
-    ''' Transformation matrix that applies a translation and rotation.
-
-    Translation is T=(-x, -y, -z) to the local coordinate system followed
-    by a rotation = R(alpha, beta, gamma).T in the local coordinate system.
-
-    Note
-    ----
-        - This function is the inverse of
-          local_to_global_transformation_matrix()
-        - The resulting transformation matrix is 4 x 4
-        - Translation and Rotation operations are not commutative
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    # Extend rotation matrix R by one dimension
-    R = np.eye(4, 4, 0, dtype=np.float64)
-    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma).T
-
-    # Get translation matrix T
-    T = translation_matrix(x=-x, y=-y, z=-z)
-
-    return np.dot(R, T)
-
-
-def local_to_global_transformation_matrix(x, y, z, alpha, beta, gamma):
-    ''' Transformation matrix that applies a inverse translation and rotation.
-
-    Inverse rotation in the local coordinate system followed by an inverse
-    translation by x, y, z to the global coordinate system.
-
-    Note
-    ----
-        - The resulting transformation matrix is 4 x 4
-        - Translation and Rotation operations do not commutative
-
-    Parameters
-    ----------
-    x : float
-        Translation in x.
-    y : float
-        Translation in y.
-    z : float
-        Translation in z.
-    alpha : float
-        Angle in radians for rotation around x.
-    beta : float
-        Angle in radians for rotation around y.
-    gamma : float
-        Angle in radians for rotation around z.
-
-    Returns
-    -------
-    Array with shape (4, 4).
-    '''
-    # Extend inverse rotation matrix R by one dimension
-    R = np.eye(4, 4, 0, dtype=np.float64)
-    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma)
-
-    # Get inverse translation matrix T
-    T = translation_matrix(x=x, y=y, z=z)
-
-    return np.dot(T, R)
-
-
-def apply_transformation_matrix(x, y, z, transformation_matrix):
-    ''' Takes arrays for x, y, z and applies a transformation matrix (4 x 4).
-
-    Parameters
-    ----------
-    x : array
-        Array of x coordinates.
-    y : array
-        Array of y coordinates.
-    z : array
-        Array of z coordinates.
-
-    Returns
-    -------
-    Array with transformed coordinates.
-    '''
-    # Add extra 4th dimension
-    pos = np.column_stack((x, y, z, np.ones_like(x, dtype=np.float64))).T
-
-    # Transform and delete extra dimension
-    pos_transformed = np.dot(transformation_matrix, pos).T[:, :-1]
-
-    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
-
-
-def apply_rotation_matrix(x, y, z, rotation_matrix):
-    ''' Takes array in x, y, z and applies a rotation matrix (3 x 3).
-
-    Parameters
-    ----------
-    x : array
-        Array of x coordinates.
-    y : array
-        Array of x coordinates.
-    z : array
-        Array of x coordinates.
-
-    Returns
-    -------
-    Array with rotated coordinates.
-    '''
-    pos = np.column_stack((x, y, z)).T
-    pos_transformed = np.dot(rotation_matrix, pos).T
-
-    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
+''' Helper functions for geometrical operations.
+'''
+from __future__ import division
+
+import logging
+
+import numpy as np
+
+
+def skew(v):
+    matr = np.zeros(np.prod(np.r_[v.shape, 3]))
+    matr[::9] = v.flatten()[::3]
+    matr[4::9] = v.flatten()[1::3]
+    matr[8::9] = v.flatten()[2::3]
+    matr = matr.reshape(np.r_[v.shape, 3])
+
+    if len(v.shape) == 1:
+        matr_skv = np.roll(np.roll(matr, 1, 1), -1, 0)
+        return matr_skv - matr_skv.T
+    else:
+        matr_skv = np.roll(np.roll(matr, 1, 2), -1, 1)
+        return matr_skv - matr_skv.transpose((0, 2, 1))
+
+
+def get_plane_normal(direction_vector_1, direction_vector_2):
+    ''' Normal vector of a plane.
+
+    Plane is define by two non parallel direction vectors within the plane.
+
+    Parameters
+    ----------
+    direction_vector_1 : array
+        Array with x, y and z.
+    direction_vector_2 : array
+        Array with x, y and z.
+
+    Returns
+    -------
+    Array with x, y and z.
+    '''
+    return np.cross(direction_vector_1, direction_vector_2)
+
+
+def get_line_intersections_with_dut(line_origins, line_directions, translation_x, translation_y, translation_z, rotation_alpha, rotation_beta, rotation_gamma):
+    ''' Calculates the intersection of lines with a DUT.
+
+    If there is no intersection point (line is parallel to plane or the line is
+    in the plane) the intersection point is set to nan.
+
+    Notes
+    -----
+    Further information:
+    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
+
+    Parameters
+    ----------
+    line_origins : array
+        A point (x, y and z) on the line for each of the n lines.
+    line_directions : array
+        The direction vector of the line for n lines.
+    translation_x, translation_y, translation_z : float
+        The coordianates of the DUT (in um).
+    rotation_alpha, rotation_beta, rotation_gamma : float
+        The rotation angles of the DUT (in radians).
+
+    Returns
+    -------
+    Array with shape (n, 3) with the intersection point.
+    '''
+    dut_position = np.array([
+        translation_x,
+        translation_y,
+        translation_z],
+        dtype=np.float64)
+    dut_rotation_matrix = rotation_matrix(
+        alpha=rotation_alpha,
+        beta=rotation_beta,
+        gamma=rotation_gamma)
+    basis_global = dut_rotation_matrix.T.dot(np.eye(3, dtype=np.float64))
+    dut_normal = basis_global[2]
+    dut_normal /= np.sqrt(np.dot(dut_normal, dut_normal))
+    if dut_normal[2] < 0:
+        dut_normal = -dut_normal
+    return get_line_intersections_with_plane(
+        line_origins=line_origins,
+        line_directions=line_directions,
+        position_plane=dut_position,
+        normal_plane=dut_normal)
+
+
+def get_line_intersections_with_plane(line_origins, line_directions, position_plane, normal_plane):
+    ''' Calculates the intersection of n lines with one plane.
+
+    If there is no intersection point (line is parallel to plane or the line is
+    in the plane) the intersection point is set to nan.
+
+    Notes
+    -----
+    Further information:
+    http://stackoverflow.com/questions/4938332/line-plane-intersection-based-on-points
+
+    Parameters
+    ----------
+    line_origins : array
+        A point (x, y and z) on the line for each of the n lines.
+    line_directions : array
+        The direction vector of the line for n lines.
+    position_plane : array
+        A array (x, y and z) to the plane.
+    normal_plane : array
+        The normal vector (x, y and z) of the plane.
+
+    Returns
+    -------
+    Array with shape (n, 3) with the intersection point.
+    '''
+    # Calculate offsets and extend in missing dimension
+    offsets = position_plane[np.newaxis, :] - line_origins
+
+    # Precalculate to be able to avoid division by 0
+    # (line is parallel to the plane or in the plane)
+    norm_dot_off = np.dot(normal_plane, offsets.T)
+    # Dot product is transformed to be at least 1D for special n = 1
+    norm_dot_dir = np.atleast_1d(np.dot(normal_plane,
+                                        line_directions.T))
+
+    # Initialize result to nan
+    t = np.full_like(norm_dot_off, fill_value=np.nan, dtype=np.float64)
+
+    # Warn if some intersection cannot be calculated
+    if np.any(norm_dot_dir == 0):
+        raise
+        logging.warning('Some line plane intersection could not be calculated')
+
+    # Calculate t scalar for each line simultaniously, avoid division by 0
+    sel = norm_dot_dir != 0
+    t[sel] = norm_dot_off[sel] / norm_dot_dir[sel]
+
+    # Calculate the intersections for each line with the plane
+    intersections = line_origins + line_directions * t[:, np.newaxis]
+
+    return intersections
+
+
+def cartesian_to_spherical(x, y, z):
+    ''' Does a transformation from cartesian to spherical coordinates.
+
+    Convention: r = 0 --> phi = theta = 0
+
+    Parameters
+    ----------
+    x, y, z : float
+        Position in cartesian space.
+
+    Returns
+    -------
+    Spherical coordinates phi, theta and r.
+    '''
+    r = np.sqrt(x * x + y * y + z * z)
+    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = 0
+    theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
+    # Avoid division by zero
+    # https://en.wikipedia.org/wiki/Atan2
+    phi[x != 0] = np.arctan2(y[x != 0], x[x != 0])
+    phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
+    theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
+    return phi, theta, r
+
+
+def spherical_to_cartesian(phi, theta, r):
+    ''' Transformation from spherical to cartesian coordinates.
+
+    Including error checks.
+
+    Parameters
+    ----------
+    phi, theta, r : float
+        Position in spherical space.
+
+    Returns
+    -------
+    Cartesian coordinates x, y and z.
+    '''
+    if np.any(r < 0):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because r < 0')
+    if np.any(theta < 0) or np.any(theta >= np.pi):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because theta exceeds [0, Pi[')
+    if np.any(phi < 0) or np.any(phi >= 2 * np.pi):
+        raise RuntimeError('Conversion from spherical to cartesian coordinates failed, because phi exceeds [0, 2*Pi[')
+    x = r * np.cos(phi) * np.sin(theta)
+    y = r * np.sin(phi) * np.sin(theta)
+    z = r * np.cos(theta)
+
+    return x, y, z
+
+
+def rotation_matrix_x(alpha):
+    ''' Calculates the rotation matrix for the rotation around the x axis by an angle alpha in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    alpha : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[1, 0, 0],
+                     [0, np.cos(alpha), -np.sin(alpha)],
+                     [0, np.sin(alpha), np.cos(alpha)]],
+                    dtype=np.float64)
+
+
+def rotation_matrix_y(beta):
+    ''' Calculates the rotation matrix for the rotation around the y axis by an angle beta in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    beta : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[np.cos(beta), 0, np.sin(beta)],
+                     [0, 1, 0],
+                     [-np.sin(beta), 0, np.cos(beta)]],
+                    dtype=np.float64)
+
+
+def rotation_matrix_z(gamma):
+    ''' Calculates the rotation matrix for the rotation around the z axis by an angle gamma in a cartesian right-handed coordinate system.
+
+    Note
+    ----
+    Rotation in a cartesian right-handed coordinate system.
+
+    Parameters
+    ----------
+    gamma : float
+        Angle in radians.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.array([[np.cos(gamma), -np.sin(gamma), 0],
+                     [np.sin(gamma), np.cos(gamma), 0],
+                     [0, 0, 1]],
+                    dtype=np.float64)
+
+
+def rotation_matrix(alpha, beta, gamma):
+    ''' Calculates the rotation matrix for the rotation around the three cartesian
+    axis x, y, z in a right-handed coordinate system.
+
+    Note
+    ----
+    The matrix represents a rotation around the x axis, then the y axis,
+    and then the z axis in a right-handed coordinate system.
+
+    Remember:
+        - Transform to the locale coordinate system before applying rotations
+        - Rotations are associative but not commutative
+
+    Usage
+    -----
+        A rotation by (alpha, beta, gamma) of the vector (x, y, z) in the local
+        coordinate system can be done by:
+            np.dot(rotation_matrix(alpha, beta, gamma), np.array([x, y, z]))
+
+    Parameters
+    ----------
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (3, 3).
+    '''
+    return np.linalg.multi_dot([rotation_matrix_z(gamma=gamma), rotation_matrix_y(beta=beta), rotation_matrix_x(alpha=alpha)])
+
+
+def euler_angles(R):
+    ''' Calculates the Euler angles from rotation matrix R.
+
+    Note
+    ----
+    In a right-handed system. The rotation is done around x then y then z.
+
+    Note:
+        - Transform to the local coordinate system before applying rotations
+        - Rotations are associative but not commutative
+        - In cases of beta = pi/2 and -pi/2, gamma and alpha are linked (gimbal lock).
+          In this case, gamma is set to zero.
+
+    Parameters
+    ----------
+    R : array
+        Rotation matrix.
+
+    Returns
+    -------
+    Returns Euler angles alpha, beta and gamma.
+    '''
+    def is_rotation_matrix(R):
+        norm = np.linalg.norm(np.identity(3, dtype=R.dtype) - np.dot(R.T, R))
+        return np.isclose(0.0, norm)
+
+    if not is_rotation_matrix(R):
+        raise ValueError("%s is not a rotation matrix" % str(R))
+
+    if R[2, 0] == -1:
+        gamma = 0.0  # gimbal lock
+        alpha = gamma + np.arctan2(R[0, 1], R[0, 2])
+        beta = np.pi / 2
+    elif R[2, 0] == 1:
+        gamma = 0.0  # gimbal lock
+        alpha = -gamma + np.arctan2(-R[0, 1], -R[0, 2])
+        beta = -np.pi / 2
+    else:
+        beta_1 = -np.arcsin(R[2, 0])
+        # for very small values use 0.0 and remove minus sign from 0.0
+        if beta_1 <= np.finfo(beta_1.dtype).eps and beta_1 >= -np.finfo(beta_1.dtype).eps:
+            beta_1 = 0.0
+        beta_2 = np.pi - beta_1
+        alpha_1 = np.arctan2(R[2, 1] / np.cos(beta_1), R[2, 2] / np.cos(beta_1))
+        if alpha_1 <= np.finfo(alpha_1.dtype).eps and alpha_1 >= -np.finfo(alpha_1.dtype).eps:
+            alpha_1 = 0.0
+        alpha_2 = np.arctan2(R[2, 1] / np.cos(beta_2), R[2, 2] / np.cos(beta_2))
+        if alpha_2 <= np.finfo(alpha_2.dtype).eps and alpha_2 >= -np.finfo(alpha_2.dtype).eps:
+            alpha_2 = 0.0
+        gamma_1 = np.arctan2(R[1, 0] / np.cos(beta_1), R[0, 0] / np.cos(beta_1))
+        if gamma_1 <= np.finfo(gamma_1.dtype).eps and gamma_1 >= -np.finfo(gamma_1.dtype).eps:
+            gamma_1 = 0.0
+        gamma_2 = np.arctan2(R[1, 0] / np.cos(beta_2), R[0, 0] / np.cos(beta_2))
+        if gamma_2 <= np.finfo(gamma_2.dtype).eps and gamma_2 >= -np.finfo(gamma_2.dtype).eps:
+            gamma_2 = 0.0
+        alpha, beta, gamma = alpha_1, beta_1, gamma_1
+        # # chose the angles with smaller values
+        # if np.sum(np.abs([alpha_1, beta_1, gamma_1])) <= np.sum(np.abs([alpha_2, beta_2, gamma_2])):
+        #     alpha, beta, gamma = alpha_1, beta_1, gamma_1
+        # else:
+        #     alpha, beta, gamma = alpha_2, beta_2, gamma_2
+    return alpha, beta, gamma
+
+
+def translation_matrix(x, y, z):
+    ''' Calculates the translation matrix for the translation in x, y, z in a cartesian right-handed system.
+
+    Note
+    ----
+    Remember: Translations are associative and commutative
+
+    Usage
+    -----
+        A translation of a vector (x, y, z) by dx, dy, dz can be done by:
+          np.dot(translation_matrix(dx, dy, dz), np.array([x, y, z, 1]))
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    translation_matrix = np.eye(4, 4, 0, dtype=np.float64)
+    translation_matrix[3, :3] = np.array([x, y, z], dtype=np.float64)
+
+    return translation_matrix.T
+
+
+def global_to_local_transformation_matrix(x, y, z, alpha, beta, gamma):
+    ''' Transformation matrix that applies a translation and rotation.
+
+    Translation is T=(-x, -y, -z) to the local coordinate system followed
+    by a rotation = R(alpha, beta, gamma).T in the local coordinate system.
+
+    Note
+    ----
+        - This function is the inverse of
+          local_to_global_transformation_matrix()
+        - The resulting transformation matrix is 4 x 4
+        - Translation and Rotation operations are not commutative
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    # Extend rotation matrix R by one dimension
+    R = np.eye(4, 4, 0, dtype=np.float64)
+    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma).T
+
+    # Get translation matrix T
+    T = translation_matrix(x=-x, y=-y, z=-z)
+
+    return np.dot(R, T)
+
+
+def local_to_global_transformation_matrix(x, y, z, alpha, beta, gamma):
+    ''' Transformation matrix that applies a inverse translation and rotation.
+
+    Inverse rotation in the local coordinate system followed by an inverse
+    translation by x, y, z to the global coordinate system.
+
+    Note
+    ----
+        - The resulting transformation matrix is 4 x 4
+        - Translation and Rotation operations do not commutative
+
+    Parameters
+    ----------
+    x : float
+        Translation in x.
+    y : float
+        Translation in y.
+    z : float
+        Translation in z.
+    alpha : float
+        Angle in radians for rotation around x.
+    beta : float
+        Angle in radians for rotation around y.
+    gamma : float
+        Angle in radians for rotation around z.
+
+    Returns
+    -------
+    Array with shape (4, 4).
+    '''
+    # Extend inverse rotation matrix R by one dimension
+    R = np.eye(4, 4, 0, dtype=np.float64)
+    R[:3, :3] = rotation_matrix(alpha=alpha, beta=beta, gamma=gamma)
+
+    # Get inverse translation matrix T
+    T = translation_matrix(x=x, y=y, z=z)
+
+    return np.dot(T, R)
+
+
+def apply_transformation_matrix(x, y, z, transformation_matrix):
+    ''' Takes arrays for x, y, z and applies a transformation matrix (4 x 4).
+
+    Parameters
+    ----------
+    x : array
+        Array of x coordinates.
+    y : array
+        Array of y coordinates.
+    z : array
+        Array of z coordinates.
+
+    Returns
+    -------
+    Array with transformed coordinates.
+    '''
+    # Add extra 4th dimension
+    pos = np.column_stack((x, y, z, np.ones_like(x, dtype=np.float64))).T
+
+    # Transform and delete extra dimension
+    pos_transformed = np.dot(transformation_matrix, pos).T[:, :-1]
+
+    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
+
+
+def apply_rotation_matrix(x, y, z, rotation_matrix):
+    ''' Takes array in x, y, z and applies a rotation matrix (3 x 3).
+
+    Parameters
+    ----------
+    x : array
+        Array of x coordinates.
+    y : array
+        Array of x coordinates.
+    z : array
+        Array of x coordinates.
+
+    Returns
+    -------
+    Array with rotated coordinates.
+    '''
+    pos = np.column_stack((x, y, z)).T
+    pos_transformed = np.dot(rotation_matrix, pos).T
+
+    return pos_transformed[:, 0], pos_transformed[:, 1], pos_transformed[:, 2]
-- 
2.43.0


From 57a711bea8841f075b69bf9e18a2f277ac3e6bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:05 +0000
Subject: [PATCH 33/57] fix: select_tracks evaluates the query on the columns
 of the table

---
 beam_telescope_analysis/tools/data_selection.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index bfd1eba..2a8177b 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -2,7 +2,6 @@
 from __future__ import division
 
 import logging
-import re
 import os
 from collections.abc import Iterable
 
@@ -482,7 +481,6 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
 
 
 def table_where(arr, query_str):
-    for variable in set(re.findall(r'(\d*[a-zA-Z_]+\d*)', query_str)):
-        exec(variable + ' = arr[\'' + variable + '\']')  # expose variables; not a copy, this is just a reference
+    columns = {name: arr[name] for name in arr.dtype.names}  # expose columns; not a copy, this is just a reference
 
-    return arr[ne.evaluate(query_str, casting="safe")]
+    return arr[ne.evaluate(query_str, local_dict=columns, global_dict={}, casting="safe")]
-- 
2.43.0


From 8616aabe2687dec57f01d17d075bf1970e402324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:05 +0000
Subject: [PATCH 34/57] fix: select_tracks summary does not divide by zero if
 no selection is made

---
 beam_telescope_analysis/tools/data_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/data_selection.py b/beam_telescope_analysis/tools/data_selection.py
index 2a8177b..65c65ff 100644
--- a/beam_telescope_analysis/tools/data_selection.py
+++ b/beam_telescope_analysis/tools/data_selection.py
@@ -475,7 +475,7 @@ def select_tracks(telescope_configuration, input_tracks_file, select_duts, outpu
                     # total_n_tracks_last = total_n_tracks
                     last_index_chunk = index_chunk
                 pbar.close()
-                logging.info('Track selection summary: In total selected %.2f %% of tracks\nHit selection: %.2f\nQuality selection: %.2f %%\nIsolated tracks selection: %.2f %%\nIsolated hits selection: %.2f %%\nQuery string selection: %.2f %%' % (100.0 * n_tracks_query / total_n_tracks, 100.0 * n_tracks_hit_mask / total_n_tracks, 100.0 * n_tracks_quality_mask / n_tracks_hit_mask, 100.0 * n_tracks_iso_track_mask / n_tracks_quality_mask, 100.0 * n_tracks_iso_hit_mask / n_tracks_iso_track_mask, 100.0 * n_tracks_query / n_tracks_iso_hit_mask))
+                logging.info('Track selection summary: In total selected %.2f %% of tracks\nHit selection: %.2f\nQuality selection: %.2f %%\nIsolated tracks selection: %.2f %%\nIsolated hits selection: %.2f %%\nQuery string selection: %.2f %%' % (100.0 * n_tracks_query / max(total_n_tracks, 1), 100.0 * n_tracks_hit_mask / max(total_n_tracks, 1), 100.0 * n_tracks_quality_mask / max(n_tracks_hit_mask, 1), 100.0 * n_tracks_iso_track_mask / max(n_tracks_quality_mask, 1), 100.0 * n_tracks_iso_hit_mask / max(n_tracks_iso_track_mask, 1), 100.0 * n_tracks_query / max(n_tracks_iso_hit_mask, 1)))
 
     return output_tracks_file
 
-- 
2.43.0


From e1d808399927ef3b6d74e792031a05bf48e0f459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:27 +0000
Subject: [PATCH 35/57] fix: merge_cluster_data keeps the events after the last
 cluster of the first DUT

---
 beam_telescope_analysis/hit_analysis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/hit_analysis.py b/beam_telescope_analysis/hit_analysis.py
index 38bb6ad..af75600 100644
--- a/beam_telescope_analysis/hit_analysis.py
+++ b/beam_telescope_analysis/hit_analysis.py
@@ -1617,11 +1617,14 @@ def merge_cluster_data(telescope_configuration, input_cluster_files, output_merg
             for actual_cluster_dut_0, start_indices_data_loop[0] in analysis_utils.data_aligned_at_events(in_file_h5.root.Clusters, start_index=start_indices_data_loop[0], start_event_number=actual_start_event_number, stop_event_number=None, chunk_size=chunk_size):  # Loop over the cluster of DUT0 in chunks
                 actual_event_numbers = actual_cluster_dut_0['event_number']
 
+                # The last chunk of DUT0 takes all remaining events of the other DUTs
+                stop_event_number = actual_event_numbers[-1] + 1 if start_indices_data_loop[0] < in_file_h5.root.Clusters.nrows else None
+
                 # First loop: calculate the minimum event number indices needed to merge all cluster from all files to this event number index
                 common_event_numbers = actual_event_numbers
                 for dut_index, cluster_file in enumerate(input_cluster_files[1:], start=1):  # Loop over the other cluster files
                     with tb.open_file(cluster_file, mode='r') as actual_in_file_h5:  # Open DUT0 cluster file
-                        for actual_cluster, start_indices_merging_loop[dut_index] in analysis_utils.data_aligned_at_events(actual_in_file_h5.root.Clusters, start_index=start_indices_merging_loop[dut_index], start_event_number=actual_start_event_number, stop_event_number=actual_event_numbers[-1] + 1, chunk_size=chunk_size, fail_on_missing_events=False):  # Loop over the cluster in the actual cluster file in chunks
+                        for actual_cluster, start_indices_merging_loop[dut_index] in analysis_utils.data_aligned_at_events(actual_in_file_h5.root.Clusters, start_index=start_indices_merging_loop[dut_index], start_event_number=actual_start_event_number, stop_event_number=stop_event_number, chunk_size=chunk_size, fail_on_missing_events=False):  # Loop over the cluster in the actual cluster file in chunks
                             common_event_numbers = analysis_utils.get_max_events_in_both_arrays(common_event_numbers, actual_cluster['event_number'])
                 # array with merged DUT data
                 merged_cluster_array = np.zeros(shape=(common_event_numbers.shape[0],), dtype=description)
-- 
2.43.0


From 0f04a2bac82cab0e1e467189c62a0bd2f99c5a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:00 +0000
Subject: [PATCH 36/57] fix: index the reference states of the Kalman smoother
 by DUT number, not by position along z

---
 beam_telescope_analysis/tools/kalman.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/tools/kalman.py b/beam_telescope_analysis/tools/kalman.py
index 6aadc87..e2d91e9 100644
--- a/beam_telescope_analysis/tools/kalman.py
+++ b/beam_telescope_analysis/tools/kalman.py
@@ -830,7 +830,8 @@ class KalmanFilter(object):
             initial_state_covariance=initial_state_covariance)
 
         # Improve track_seed
-        track_seed = reference_states[:, 0, :] + filtered_states_b[:, 0, :]
+        first_dut_index = z_sorted_dut_indices[0]
+        track_seed = reference_states[:, first_dut_index, :] + filtered_states_b[:, first_dut_index, :]
 
         # Extrapolate track_seed and store as reference state
         for i, dut_index in enumerate(z_sorted_dut_indices):
@@ -842,7 +843,7 @@ class KalmanFilter(object):
                     beta=seed_dut.rotation_beta,
                     gamma=seed_dut.rotation_gamma)
                 seed_dut_position = np.array([seed_dut.translation_x, seed_dut.translation_y, seed_dut.translation_z])
-                reference_states[:, i, :] = track_seed
+                reference_states[:, dut_index, :] = track_seed
 
             else:
                 rotation_matrix_actual_dut = geometry_utils.rotation_matrix(
@@ -851,7 +852,7 @@ class KalmanFilter(object):
                     gamma=actual_dut.rotation_gamma)
                 actual_dut_position = np.array([actual_dut.translation_x, actual_dut.translation_y, actual_dut.translation_z])
                 # Extrapolate track seed
-                reference_states[:, i, :] = _extrapolate_state(
+                reference_states[:, dut_index, :] = _extrapolate_state(
                     track_state=track_seed,
                     dut_position=np.tile(seed_dut_position, reps=(track_seed.shape[0], 1)),
                     target_dut_position=np.tile(actual_dut_position, reps=(track_seed.shape[0], 1)),
-- 
2.43.0


From e3886691a7d9c214ab0feee6dfadaa0d5e0427bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:22 +0000
Subject: [PATCH 37/57] fix: take only the columns of the very DUT when sorting
 hits into track candidates

---
 beam_telescope_analysis/track_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index ad10ede..15a3bbf 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -288,7 +288,7 @@ def find_tracks(telescope_configuration, input_merged_file, output_track_candida
                 # copy the columns to the result array
                 for dut_index in range(n_duts):
                     for column_name in tracklets_data_chunk.dtype.names:
-                        if 'dut_%d' % dut_index in column_name:
+                        if column_name.endswith('_dut_%d' % dut_index):
                             tracklets_data_chunk[column_name] = tracklets_data_chunk[column_name][indices[:, dut_index]]
                 # calculate new hit flags
                 for dut_index in range(n_duts):
-- 
2.43.0


From 73c2a73c044a612d128572d487b5b11f6d799b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:04 +0000
Subject: [PATCH 38/57] fix: create the list of Voronoi regions without a
 ragged array

---
 beam_telescope_analysis/tools/analysis_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/analysis_utils.py b/beam_telescope_analysis/tools/analysis_utils.py
index 997388a..c3c85a8 100644
--- a/beam_telescope_analysis/tools/analysis_utils.py
+++ b/beam_telescope_analysis/tools/analysis_utils.py
@@ -1138,7 +1138,7 @@ def voronoi_finite_polygons_2d(points, dut_extent=None):
     ridge_vertices_with_vertex_inside_sel &= np.all(np.isin(vor_ridge_vertices, vertices_indices_inside), axis=1)
     ridge_vertices_indices_with_vertex_inside = np.where(ridge_vertices_with_vertex_inside_sel)[0]
     # TODO: remove not used vertices and update indices lists
-    return vor.points, np.array(vor.regions)[new_regions_indices].tolist(), vor_ridge_vertices[ridge_vertices_indices_with_vertex_inside].tolist(), vor.vertices
+    return vor.points, [vor.regions[index] for index in new_regions_indices], vor_ridge_vertices[ridge_vertices_indices_with_vertex_inside].tolist(), vor.vertices
 
 
 def polygon_area(x, y):
-- 
2.43.0


From 29c498150f1aed488368f549801eaa0534237554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:25 +0000
Subject: [PATCH 39/57] fix: calculate_efficiency failed if no track of the
 first chunk has a valid hit

---
 beam_telescope_analysis/result_analysis.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 07712dd..5d9bd5a 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -998,7 +998,8 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                 disabled_pixel_mask = disabled_pixel_masks[index]
 
                 pbar = tqdm(total=node.shape[0], ncols=80)
-                initialize = True
+                initialize = True  # no valid hits so far
+                count_tracks_2d_hist = np.zeros(shape=(hist_2d_x_n_bins, hist_2d_y_n_bins), dtype=np.float64)
                 start_index_cluster_hits = 0
                 chunk_indices = []
                 efficiency_chunks = []
@@ -1256,14 +1257,13 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     _, closest_indices_with_hit = pixel_center_extended_kd_tree.query(np.column_stack((intersection_x_local[select_valid_hit], intersection_y_local[select_valid_hit])))
                     count_tracks_with_hit_pixel_hist += np.bincount(closest_indices_with_hit, minlength=pixel_center_data.shape[0])[:pixel_center_data.shape[0]]
 
+                    # 2D tracks, per chunk
+                    count_tracks_2d_hist_chunk = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)[0]
+                    count_tracks_2d_hist += count_tracks_2d_hist_chunk
                     # Check if DUT has valid hits
                     if initialize:
-                        initialize = False
-                        # 2D tracks
-                        count_tracks_2d_hist, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)
-                        # Per chunk
-                        count_tracks_2d_hist_chunk = count_tracks_2d_hist
                         if np.any(select_valid_hit):  # Check for valid hits
+                            initialize = False
                             # 2D hits
                             count_hits_2d_hist, _, _, _ = stats.binned_statistic_2d(x=hit_x_local[select_valid_hit], y=hit_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges)
                             # 2D tracks with valid hit
@@ -1327,10 +1327,6 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             # Per chunk
                             count_tracks_with_hit_2d_hist_chunk = count_tracks_with_hit_2d_hist
                     else:
-                        # 2D tracks
-                        count_tracks_2d_hist_tmp = stats.binned_statistic_2d(x=intersection_x_local, y=intersection_y_local, values=None, statistic='count', bins=hist_2d_edges)[0]
-                        # Per chunk
-                        count_tracks_2d_hist_chunk = count_tracks_2d_hist_tmp
                         if np.any(select_valid_hit):  # Check for valid hits
                             count_tracks_with_hit_2d_hist_tmp = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges)[0]
                             # 2D hits
@@ -1403,7 +1399,6 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             # updated last:
                             # 2D tracks with valid hit
                             count_tracks_with_hit_2d_hist += count_tracks_with_hit_2d_hist_tmp
-                        count_tracks_2d_hist += count_tracks_2d_hist_tmp
                     if in_cluster_file_h5:
                         # get 2D indices (without overflow bins)
                         binnumber = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=None, statistic='count', bins=hist_2d_edges, expand_binnumbers=True).binnumber
@@ -1463,6 +1458,10 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     pbar.update(tracks_chunk.shape[0])
                 pbar.close()
 
+                if initialize:
+                    logging.warning('No valid hits found for DUT%d, cannot calculate efficiency.', actual_dut_index)
+                    continue
+
                 # Calculate efficiency
                 stat_2d_efficiency_hist = np.full_like(count_tracks_2d_hist, fill_value=np.nan, dtype=np.float64)
                 stat_2d_efficiency_hist[count_tracks_2d_hist != 0] = count_tracks_with_hit_2d_hist[count_tracks_2d_hist != 0].astype(np.float64) / count_tracks_2d_hist[count_tracks_2d_hist != 0].astype(np.float64) * 100.0
-- 
2.43.0


From 3269d79f9a60f50c1e578d740ad608b5e2c4a627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:58 +0000
Subject: [PATCH 40/57] fix: calculate_efficiency counted clusters of any shape
 as one of the selected shapes

---
 beam_telescope_analysis/result_analysis.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 5d9bd5a..a50bdae 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1068,7 +1068,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     # select cluser shapes with cluster size <=4
                     select_small_cluster_sizes = np.zeros_like(select_valid_hit)
                     for cluster_shape_value in efficiency_regions_analyze_cluster_shapes:
-                        select_small_cluster_sizes |= cluster_shape_value == cluster_shape_value
+                        select_small_cluster_sizes |= cluster_shape == cluster_shape_value
                     if efficiency_regions_dut is not None:
                         # for in-pixel statistics
                         # if neccessary increase size of primitive cell (may be larger than single pixel)
@@ -1242,10 +1242,11 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                 stat_in_pixel_cluster_size_2d_hist_tmp = np.nan_to_num(stat_in_pixel_cluster_size_2d_hist_tmp)
                                 stat_in_pixel_cluster_size_2d_hists[region_index], _ = np.ma.average(a=np.stack([stat_in_pixel_cluster_size_2d_hists[region_index], stat_in_pixel_cluster_size_2d_hist_tmp]), axis=0, weights=np.stack([count_in_pixel_tracks_with_hit_2d_hists[region_index], count_in_pixel_tracks_with_hit_2d_hist_tmp]), returned=True)
                                 # 2D in-pixel cluster shape
-                                cluster_shape_mod_tmp = cluster_shape[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes].copy()
-                                for i, cluster_shape_value in enumerate(efficiency_regions_analyze_cluster_shapes):
-                                    cluster_shape_mod_tmp[cluster_shape_mod_tmp == cluster_shape_value] = i
-                                count_in_pixel_cluster_shape_2d_hists[region_index] += stats.binned_statistic_dd(sample=[in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], cluster_shape_mod_tmp], values=None, statistic='count', bins=hist_in_pixel_cluster_shape_edges)[0]
+                                if np.any(select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes):
+                                    cluster_shape_mod_tmp = cluster_shape[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes].copy()
+                                    for i, cluster_shape_value in enumerate(efficiency_regions_analyze_cluster_shapes):
+                                        cluster_shape_mod_tmp[cluster_shape_mod_tmp == cluster_shape_value] = i
+                                    count_in_pixel_cluster_shape_2d_hists[region_index] += stats.binned_statistic_dd(sample=[in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit & select_small_cluster_sizes], cluster_shape_mod_tmp], values=None, statistic='count', bins=hist_in_pixel_cluster_shape_edges)[0]
                                 # updated last:
                                 # 2D in-pixel tracks with valid hit
                                 count_in_pixel_tracks_with_hit_2d_hists[region_index] += count_in_pixel_tracks_with_hit_2d_hist_tmp
@@ -1366,7 +1367,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                                 count_1d_frame_hist_tmp.resize(count_1d_frame_hist.size, refcheck=False)
                             count_1d_frame_hist += count_1d_frame_hist_tmp
                             # 2D mean cluster size
-                            stat_2d_cluster_size_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit & select_small_cluster_sizes], y=intersection_y_local[select_valid_hit & select_small_cluster_sizes], values=cluster_size[select_valid_hit & select_small_cluster_sizes], statistic='mean', bins=hist_2d_edges)
+                            stat_2d_cluster_size_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=intersection_x_local[select_valid_hit], y=intersection_y_local[select_valid_hit], values=cluster_size[select_valid_hit], statistic='mean', bins=hist_2d_edges)
                             stat_2d_cluster_size_hist_tmp = np.nan_to_num(stat_2d_cluster_size_hist_tmp)
                             stat_2d_cluster_size_hist, _ = np.ma.average(a=np.stack([stat_2d_cluster_size_hist, stat_2d_cluster_size_hist_tmp]), axis=0, weights=np.stack([count_tracks_with_hit_2d_hist, count_tracks_with_hit_2d_hist_tmp]), returned=True)
                             # 1D total track anlge
-- 
2.43.0


From f9c6f4e5de004b6e13114e1668a00741f0e4b13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 41/57] fix: in-pixel hit histogram counted hits beyond the cut
 distance, depending on the chunk size

---
 beam_telescope_analysis/result_analysis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index a50bdae..8409474 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1216,7 +1216,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             if np.any(select_valid_tracks_efficiency_region & select_valid_hit):  # Check for valid hits
                                 count_in_pixel_tracks_with_hit_2d_hist_tmp = stats.binned_statistic_2d(x=in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit], y=in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit], values=None, statistic='count', bins=hist_in_pixel_2d_edges)[0]
                                 # 2D in-pixel hits
-                                count_in_pixel_hits_2d_hists[region_index] += stats.binned_statistic_2d(x=in_pixel_hit_x_local[select_valid_tracks_efficiency_region], y=in_pixel_hit_y_local[select_valid_tracks_efficiency_region], values=None, statistic='count', bins=hist_in_pixel_2d_edges)[0]
+                                count_in_pixel_hits_2d_hists[region_index] += stats.binned_statistic_2d(x=in_pixel_hit_x_local[select_valid_tracks_efficiency_region & select_valid_hit], y=in_pixel_hit_y_local[select_valid_tracks_efficiency_region & select_valid_hit], values=None, statistic='count', bins=hist_in_pixel_2d_edges)[0]
                                 # 2D in-pixel x residuals
                                 stat_in_pixel_x_residuals_2d_hist_tmp, _, _, _ = stats.binned_statistic_2d(x=in_pixel_intersection_x_local[select_valid_tracks_efficiency_region & select_valid_hit], y=in_pixel_intersection_y_local[select_valid_tracks_efficiency_region & select_valid_hit], values=x_residuals[select_valid_tracks_efficiency_region & select_valid_hit], statistic='mean', bins=hist_in_pixel_2d_edges)
                                 stat_in_pixel_x_residuals_2d_hist_tmp = np.nan_to_num(stat_in_pixel_x_residuals_2d_hist_tmp)
-- 
2.43.0


From 6139d71c7015bb4e4aa1baf14a0acc679b9f3ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 42/57] fix: plot_track_chi2 chose the log scale from the last
 chunk only

---
 beam_telescope_analysis/tools/plot_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index 854d981..c5b3c91 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -887,7 +887,7 @@ def plot_track_chi2(input_tracks_file, output_pdf_file=None, dut_names=None, chu
                         hist_chi2_red += np.histogram(chi2s_red, bins=edges_chi2_red)[0]
                         hist_pvalue += np.histogram(track_pvalue, bins=edges_pvalue)[0]
 
-                plot_log = np.any(chi2s)
+                plot_log = np.any(hist_full)
 
                 fig = Figure()
                 _ = FigureCanvas(fig)
-- 
2.43.0


From 87d3393b8580242c6562af7ce5a75d9e81111940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 43/57] fix: calculate_efficiency failed if an efficiency
 region has no track in a chunk

---
 beam_telescope_analysis/result_analysis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 8409474..8fe35f8 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -1139,6 +1139,9 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                             select_valid_tracks_efficiency_region &= intersection_x_local < max(region[0])
                             select_valid_tracks_efficiency_region &= intersection_y_local > min(region[1])
                             select_valid_tracks_efficiency_region &= intersection_y_local < max(region[1])
+                            if not np.any(select_valid_tracks_efficiency_region):  # no tracks in region
+                                efficiency_regions_efficiencies_chunk[region_index] = 0.0
+                                continue
 
                             # Moving average
                             efficiency_regions_efficiencies[region_index] = (efficiency_regions_efficiencies[region_index] * efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_hit[select_valid_tracks_efficiency_region])) / (efficiency_regions_stat[region_index] + np.count_nonzero(select_valid_tracks_efficiency_region))
-- 
2.43.0


From c3518357ed4dcec770654ac60e7a741781363444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 44/57] fix: pass scalar sizes of rectangles to matplotlib in
 the efficiency plots

---
 beam_telescope_analysis/tools/plot_utils.py | 44 ++++++++++-----------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index c5b3c91..0437203 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -1321,7 +1321,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     ax = fig.add_subplot(111)
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color='r')
     _ = voronoi_plot_2d(ax=ax, ridge_vertices=ridge_vertices, vertices=vertices, points=pixel_center_data, show_points=True, line_width=mesh_line_width, line_alpha=1.0, line_color=mesh_color, point_size=mesh_point_size, point_alpha=1.0, point_color=mesh_color)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1336,7 +1336,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = np.ceil(np.percentile(count_hits_2d_hist_masked.compressed(), q=95.0))
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
     plot_2d_pixel_hist(fig, ax, count_hits_2d_hist_masked.T, hist_extent, title='Hit density\nfor %s\n(%d Hits)' % (actual_dut.name, n_hits), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1348,7 +1348,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = np.ceil(np.percentile(count_tracks_2d_hist_masked.compressed(), q=95.0))
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
     plot_2d_pixel_hist(fig, ax, count_tracks_2d_hist_masked.T, hist_extent, title='Track density\nfor %s\n(%d Tracks)' % (actual_dut.name, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1360,7 +1360,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = np.ceil(np.percentile(count_tracks_with_hit_2d_hist_masked.compressed(), q=95.0))
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
     plot_2d_pixel_hist(fig, ax, count_tracks_with_hit_2d_hist_masked.T, hist_extent, title='Track density with associated hit\nfor %s\n(%d Tracks)' % (actual_dut.name, n_tracks_with_hit), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1386,7 +1386,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
         select_bins &= y_meshgrid <= max(plot_range[1])
         _ = voronoi_plot_2d(ax=ax, ridge_vertices=ridge_vertices, vertices=vertices, points=pixel_center_data, show_points=True, line_width=mesh_line_width, line_alpha=mesh_alpha, line_color=mesh_color, point_size=mesh_point_size, point_alpha=mesh_alpha, point_color=mesh_color)
         ax.quiver(x_meshgrid[select_bins], y_meshgrid[select_bins], np.nan_to_num(stat_2d_x_residuals_hist[select_bins]), np.nan_to_num(stat_2d_y_residuals_hist[select_bins]), angles='xy', scale_units='xy', scale=1.0, pivot='tail', minshaft=2.0, width=0.001)
-        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
         ax.add_patch(rect)
         ax.set_title('Residuals\nfor %s' % actual_dut.name)
         ax.set_xlabel(r"column [$\mathrm{\mu}$m]")
@@ -1453,7 +1453,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
         effective_color_2d = color_indices[color_index_array[effective_pixels_2d]]
         effective_color_2d = np.ma.masked_where(effective_pixels_2d == -1, effective_color_2d)
         plot_2d_pixel_hist(fig, ax, effective_color_2d.T, hist_extent, title='Effective pixel locations\nfor %s' % actual_dut.name, x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=0.0, z_max=1.0, cmap=cmap, show_colorbar=False)
-        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
         ax.add_patch(rect)
         ax.set_xlabel(r"column [$\mathrm{\mu}$m]")
         ax.set_ylabel(r"row [$\mathrm{\mu}$m]")
@@ -1527,7 +1527,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
             effective_color_2d = color_indices[color_index_array[effective_pixels_2d]]
             effective_color_2d = np.ma.masked_where(effective_pixels_2d == -1, effective_color_2d)
             plot_2d_pixel_hist(fig, ax, effective_color_2d.T, hist_extent, title='Effective pixel locations\nfor %s' % actual_dut.name, x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=0.0, z_max=1.0, cmap=cmap, show_colorbar=False)
-            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
             ax.add_patch(rect)
             ax.set_xlabel(r"column [$\mathrm{\mu}$m]")
             ax.set_ylabel(r"row [$\mathrm{\mu}$m]")
@@ -1563,7 +1563,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = hist_residuals_indices[-1] + 1
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
     plot_2d_pixel_hist(fig, ax, stat_2d_residuals_hist.T, hist_extent, title='Mean 2D residuals\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1585,7 +1585,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
     z_max = hist_charge_indices[-1] + 1
     plot_2d_pixel_hist(fig, ax, stat_2d_charge_hist.T, hist_extent, title='Mean charge\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=0.0, z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1622,7 +1622,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = stat_2d_frame_hist.max()
     z_min = stat_2d_frame_hist.min()
     plot_2d_pixel_hist(fig, ax, stat_2d_frame_hist.T, hist_extent, title='Mean frame\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1645,7 +1645,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     cbar.set_ticklabels(['1', '2', '3', '4'])
     cbar.set_label("cluster size")
     # cbar.ax.tick_params(length=0)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1672,7 +1672,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = stat_2d_total_angle_hist.max()
     z_min = stat_2d_total_angle_hist.min()
     plot_2d_pixel_hist(fig, ax, stat_2d_total_angle_hist.T, hist_extent, title='Mean total track angle\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1699,7 +1699,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = stat_2d_alpha_angle_hist.max()
     z_min = stat_2d_alpha_angle_hist.min()
     plot_2d_pixel_hist(fig, ax, stat_2d_alpha_angle_hist.T, hist_extent, title='Mean alpha track angle\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1726,7 +1726,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
     z_max = stat_2d_beta_angle_hist.max()
     z_min = stat_2d_beta_angle_hist.min()
     plot_2d_pixel_hist(fig, ax, stat_2d_beta_angle_hist.T, hist_extent, title='Mean beta track angle\nfor %s' % (actual_dut.name,), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=z_max)
-    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+    rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
     ax.add_patch(rect)
     ax.set_xlim(plot_range[0])
     ax.set_ylim(plot_range[1])
@@ -1739,7 +1739,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
         z_min = 0.0
         plot_2d_pixel_hist(fig, ax, stat_2d_efficiency_hist.T, hist_extent, title='Efficiency\nfor %s\n(%d Hits, %d Tracks)' % (actual_dut.name, n_hits, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=100.0)
         _ = voronoi_plot_2d(ax=ax, ridge_vertices=ridge_vertices, vertices=vertices, show_points=False, line_width=mesh_line_width, line_alpha=mesh_alpha, line_color=mesh_color)
-        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
         ax.add_patch(rect)
         ax.set_xlim(plot_range[0])
         ax.set_ylim(plot_range[1])
@@ -1751,7 +1751,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
         # ax.scatter(local_x, local_y, marker='.', s=mesh_point_size, alpha=mesh_alpha, color=mesh_color)
         z_min = 0.0
         plot_2d_pixel_hist(fig, ax, stat_2d_efficiency_hist.T, hist_extent, title='Efficiency\nfor %s\n(%d Hits, %d Tracks)' % (actual_dut.name, n_hits, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=100.0)
-        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+        rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
         ax.add_patch(rect)
         ax.set_xlim(plot_range[0])
         ax.set_ylim(plot_range[1])
@@ -1892,7 +1892,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
             z_min = 0.0
             plot_2d_pixel_hist(fig, ax, stat_2d_efficiency_hist.T, hist_extent, title='Efficiency\nfor %s\n(%d Hits, %d Tracks)' % (actual_dut.name, n_hits, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=100.0)
             for region_index, region in enumerate(efficiency_regions):
-                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(np.diff(region[0])), height=np.abs(np.diff(region[1])), linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(np.diff(region[0]))[0], height=np.abs(np.diff(region[1]))[0], linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
                 ax.add_patch(rect)
                 text = 'Region %d%s:\nEfficiency=%.2f%%' % (region_index + 1, (" (" + efficiency_regions_names[region_index] + ")") if efficiency_regions_names[region_index] else "", efficiency_regions_efficiencies[region_index] * 100.0)
                 widths = [max(region[0]) - min(region[0]), max(region[1]) - min(region[1])]
@@ -1903,7 +1903,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 else:
                     rotation = 'horizontal'
                 ax.text(np.sum(region[0]) / 2.0, np.sum(region[1]) / 2.0, text, horizontalalignment='center', verticalalignment='center', fontsize=9, rotation=rotation)
-            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
             ax.add_patch(rect)
             ax.set_xlim(plot_range[0])
             ax.set_ylim(plot_range[1])
@@ -1916,7 +1916,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
             z_min = 0.0
             plot_2d_pixel_hist(fig, ax, stat_2d_efficiency_hist.T, hist_extent, title='Efficiency\nfor %s\n(%d Hits, %d Tracks)' % (actual_dut.name, n_hits, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=100.0)
             for region_index, region in enumerate(efficiency_regions):
-                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(np.diff(region[0])), height=np.abs(np.diff(region[1])), linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(np.diff(region[0]))[0], height=np.abs(np.diff(region[1]))[0], linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
                 ax.add_patch(rect)
                 text = 'Region %d%s:\nEfficiency=%.2f%%' % (region_index + 1, (" (" + efficiency_regions_names[region_index] + ")") if efficiency_regions_names[region_index] else "", efficiency_regions_efficiencies[region_index] * 100.0)
                 widths = [max(region[0]) - min(region[0]), max(region[1]) - min(region[1])]
@@ -1928,7 +1928,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                     rotation = 'horizontal'
                 ax.text(np.sum(region[0]) / 2.0, np.sum(region[1]) / 2.0, text, horizontalalignment='center', verticalalignment='center', fontsize=9, rotation=rotation)
             _ = voronoi_plot_2d(ax=ax, ridge_vertices=ridge_vertices, vertices=vertices, show_points=False, line_width=mesh_line_width, line_alpha=mesh_alpha, line_color=mesh_color)
-            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+            rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
             ax.add_patch(rect)
             ax.set_xlim(plot_range[0])
             ax.set_ylim(plot_range[1])
@@ -1949,7 +1949,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 z_min = 0.0
                 plot_2d_pixel_hist(fig, ax, stat_2d_efficiency_hist.T, hist_extent, title='Region %d%s: Efficiency\nfor %s\n(%d Hits, %d Tracks)' % (region_index + 1, (" (" + efficiency_regions_names[region_index] + ")") if efficiency_regions_names[region_index] else "", actual_dut.name, n_hits, n_tracks), x_axis_title=r"column [$\mathrm{\mu}$m]", y_axis_title=r"row [$\mathrm{\mu}$m]", z_min=z_min, z_max=100.0)
                 region = efficiency_regions[region_index]
-                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(np.diff(region[0])), height=np.abs(np.diff(region[1])), linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+                rect = matplotlib.patches.Rectangle(xy=(min(region[0]), min(region[1])), width=np.abs(np.diff(region[0]))[0], height=np.abs(np.diff(region[1]))[0], linewidth=2.0, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
                 ax.add_patch(rect)
                 text = 'Region %d%s:\nEfficiency=%.2f%%' % (region_index + 1, (" (" + efficiency_regions_names[region_index] + ")") if efficiency_regions_names[region_index] else "", efficiency_regions_efficiencies[region_index] * 100.0)
                 widths = [max(region[0]) - min(region[0]), max(region[1]) - min(region[1])]
@@ -1960,7 +1960,7 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 else:
                     rotation = 'horizontal'
                 ax.text(np.sum(region[0]) / 2.0, np.sum(region[1]) / 2.0, text, horizontalalignment='center', verticalalignment='center', fontsize=9, rotation=rotation)
-                rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2])), height=np.abs(np.diff(dut_extent[2:])), linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
+                rect = matplotlib.patches.Rectangle(xy=(min(dut_extent[:2]), min(dut_extent[2:])), width=np.abs(np.diff(dut_extent[:2]))[0], height=np.abs(np.diff(dut_extent[2:]))[0], linewidth=mesh_line_width, edgecolor=mesh_color, facecolor='none', alpha=mesh_alpha)
                 ax.add_patch(rect)
                 ax.set_xlim(plot_range[0])
                 ax.set_ylim(plot_range[1])
-- 
2.43.0


From 0ce32d8e3952a7ee7ced430b67489ec0cec6856e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 45/57] fix: align changed the lists passed by the caller

---
 beam_telescope_analysis/dut_alignment.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 47f674c..c621e0a 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -674,6 +674,7 @@ def align(telescope_configuration, input_merged_file, output_telescope_configura
     # Finally check length of all arrays
     if len(alignment_parameters) != len(select_duts):  # empty iterable
         raise ValueError("Parameter alignment_parameters has the wrong length.")
+    alignment_parameters = list(alignment_parameters)  # do not modify the argument of the caller
     for index, alignment_parameter in enumerate(alignment_parameters):
         if alignment_parameter is None:
             alignment_parameters[index] = [None] * len(select_duts[index])
@@ -737,6 +738,7 @@ def align(telescope_configuration, input_merged_file, output_telescope_configura
     if len(track_chi2) != len(select_duts):
         raise ValueError("Parameter track_chi2 has the wrong length.")
     # expand dimensions
+    track_chi2 = list(track_chi2)  # do not modify the argument of the caller
     # Check iterable and length for each item
     for index, chi2 in enumerate(track_chi2):
         # Check if non-iterable
@@ -768,6 +770,7 @@ def align(telescope_configuration, input_merged_file, output_telescope_configura
     if len(cluster_shapes) != len(select_duts):  # empty iterable
         raise ValueError("Parameter cluster_shapes has the wrong length.")
     # expand dimensions
+    cluster_shapes = list(cluster_shapes)  # do not modify the argument of the caller
     # Check iterable and length for each item
     for index, shapes in enumerate(cluster_shapes):
         # Check if only non-iterable in iterable
@@ -1241,9 +1244,7 @@ def _duts_alignment(output_telescope_configuration, merged_file, align_duts, pre
         output_selected_tracks_file = os.path.splitext(merged_file)[0] + '_tracks_aligned_selected_tracks_duts_%s_tmp_%d.h5' % (alignment_duts, iteration_step)
         # generate query for select_tracks
         # generate default selection of cluster shapes: 1x1, 2x1, 1x2, 3-pixel cluster, 4-pixel cluster
-        for index, shapes in enumerate(cluster_shapes):
-            if shapes is None:
-                cluster_shapes[index] = default_cluster_shapes
+        cluster_shapes = [default_cluster_shapes if shapes is None else shapes for shapes in cluster_shapes]
         query_string = [((('(track_chi_red < %f)' % track_chi2[index]) if track_chi2[index] else '') + (' & ' if (track_chi2[index] and cluster_shapes[index]) else '') + (('(' + ' | '.join([('(cluster_shape_dut_{0} == %d)' % cluster_shape) for cluster_shape in cluster_shapes[index]]).format(dut_index) + ')') if cluster_shapes[index] else '')) for index, dut_index in enumerate(actual_align_duts)]
         data_selection.select_tracks(
             telescope_configuration=output_telescope_configuration,
-- 
2.43.0


From 6174047d808f284e59b58db645f76c6afe336d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 46/57] fix: fit_tracks replaced None in the lists passed by
 the caller

---
 beam_telescope_analysis/track_analysis.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/track_analysis.py b/beam_telescope_analysis/track_analysis.py
index 15a3bbf..d519d57 100644
--- a/beam_telescope_analysis/track_analysis.py
+++ b/beam_telescope_analysis/track_analysis.py
@@ -667,9 +667,7 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
     if all(map(lambda val: not isinstance(val, Iterable) and val is not None, select_fit_duts)):
         select_fit_duts = [select_fit_duts[:] for _ in select_duts]
     # if None use all DUTs
-    for index, item in enumerate(select_fit_duts):
-        if item is None:
-            select_fit_duts[index] = list(range(n_duts))
+    select_fit_duts = [list(range(n_duts)) if item is None else item for item in select_fit_duts]
     # Check if only iterable in iterable
     if not all(map(lambda val: isinstance(val, Iterable), select_fit_duts)):
         raise ValueError("Not all items in parameter select_fit_duts are iterable.")
@@ -693,9 +691,7 @@ def fit_tracks(telescope_configuration, input_track_candidates_file, output_trac
     if all(map(lambda val: not isinstance(val, Iterable) and val is not None, select_hit_duts)):
         select_hit_duts = [select_hit_duts[:] for _ in select_duts]
     # If None, require no hit
-    for index, item in enumerate(select_hit_duts):
-        if item is None:
-            select_hit_duts[index] = []
+    select_hit_duts = [[] if item is None else item for item in select_hit_duts]
     # Check if only iterable in iterable
     if not all(map(lambda val: isinstance(val, Iterable), select_hit_duts)):
         raise ValueError("Not all items in parameter select_hit_duts are iterable.")
-- 
2.43.0


From c786b85eec70f33114e75ccdbd76268c97ce0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 47/57] fix: align_kalman replaced None in the lists passed by
 the caller

---
 beam_telescope_analysis/dut_alignment.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index c621e0a..ed6db66 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1335,9 +1335,7 @@ def _duts_alignment_kalman(telescope_configuration, output_alignment_file, input
     if all(map(lambda val: not isinstance(val, Iterable) and val is not None, select_fit_duts)):
         select_fit_duts = [select_fit_duts[:] for _ in select_duts]
     # if None use all DUTs
-    for index, item in enumerate(select_fit_duts):
-        if item is None:
-            select_fit_duts[index] = list(range(n_duts))
+    select_fit_duts = [list(range(n_duts)) if item is None else item for item in select_fit_duts]
     # Check if only iterable in iterable
     if not all(map(lambda val: isinstance(val, Iterable), select_fit_duts)):
         raise ValueError("Not all items in parameter select_fit_duts are iterable.")
@@ -1361,9 +1359,7 @@ def _duts_alignment_kalman(telescope_configuration, output_alignment_file, input
     if all(map(lambda val: not isinstance(val, Iterable) and val is not None, select_hit_duts)):
         select_hit_duts = [select_hit_duts[:] for _ in select_duts]
     # If None, require no hit
-    for index, item in enumerate(select_hit_duts):
-        if item is None:
-            select_hit_duts[index] = []
+    select_hit_duts = [[] if item is None else item for item in select_hit_duts]
     # Check if only iterable in iterable
     if not all(map(lambda val: isinstance(val, Iterable), select_hit_duts)):
         raise ValueError("Not all items in parameter select_hit_duts are iterable.")
-- 
2.43.0


From 3e363aac9a5ec9360b10736255a85dacceef9764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 48/57] fix: calculate_transformation replaced None in the list
 passed by the caller

---
 beam_telescope_analysis/dut_alignment.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index ed6db66..57a41ed 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1738,6 +1738,7 @@ def calculate_transformation(telescope_configuration, input_tracks_file, select_
         select_alignment_parameters = [default_alignment_parameters] * len(select_duts)
     if len(select_duts) != len(select_alignment_parameters):
         raise ValueError("Parameter select_alignment_parameters has the wrong length.")
+    select_alignment_parameters = list(select_alignment_parameters)  # do not modify the argument of the caller
     for index, actual_alignment_parameters in enumerate(select_alignment_parameters):
         if actual_alignment_parameters is None:
             select_alignment_parameters[index] = default_alignment_parameters
-- 
2.43.0


From 18a6d8874dce5226f1edd6e19975fdefd9e8522d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 49/57] fix: calculate_efficiency changed the lists passed by
 the caller and failed for tuples

---
 beam_telescope_analysis/result_analysis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beam_telescope_analysis/result_analysis.py b/beam_telescope_analysis/result_analysis.py
index 8fe35f8..408b394 100644
--- a/beam_telescope_analysis/result_analysis.py
+++ b/beam_telescope_analysis/result_analysis.py
@@ -754,6 +754,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
     # Finally check length of all arrays
     if len(efficiency_region_names) != len(select_duts):  # empty iterable
         raise ValueError("Parameter efficiency_region_names has the wrong length.")
+    efficiency_region_names = list(efficiency_region_names)  # do not modify the argument of the caller
     # Finally check length of all arrays
     for index, (region_name, regions) in enumerate(zip(efficiency_region_names, efficiency_regions)):
         if regions and region_name is None:
@@ -809,6 +810,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                 resolution = resolutions[index]
                 if resolution is None:
                     resolution = actual_dut.pixel_size
+                resolution = list(resolution)  # do not modify the argument of the caller
                 if resolution[0] is None:
                     resolution[0] = actual_dut.pixel_size[0]
                 if resolution[1] is None:
@@ -855,6 +857,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     in_pixel_resolution = in_pixel_resolutions[index]
                     if in_pixel_resolution is None:
                         in_pixel_resolution = list(map(min, zip(resolution, [pitch / 10.0 for pitch in actual_dut.pixel_size])))
+                    in_pixel_resolution = list(in_pixel_resolution)  # do not modify the argument of the caller
                     if in_pixel_resolution[0] is None:
                         in_pixel_resolution[0] = min(resolution[0], actual_dut.pixel_size[0] / 10.0)
                     if in_pixel_resolution[1] is None:
@@ -1053,10 +1056,7 @@ def calculate_efficiency(telescope_configuration, input_tracks_file, select_duts
                     cut_distance = cut_distances[index]
                     if cut_distance is None:
                         cut_distance = (np.inf, np.inf)
-                    if cut_distance[0] is None:
-                        cut_distance[0] = np.inf
-                    if cut_distance[1] is None:
-                        cut_distance[1] = np.inf
+                    cut_distance = tuple(np.inf if cut is None else cut for cut in cut_distance)
 
                     # Select data where distance between the hit and track is smaller than the given value
                     select_valid_hit = np.isfinite(hit_x_local)
-- 
2.43.0


From f23664ee346b01cfe96c30a90a737a5fd8b558a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 50/57] fix: align and align_kalman did not use chunk_size in
 every step

---
 beam_telescope_analysis/dut_alignment.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 57a41ed..318e156 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -876,7 +876,8 @@ def align(telescope_configuration, input_merged_file, output_telescope_configura
                 output_track_candidates_file=prealigned_track_candidates_file,
                 select_extrapolation_duts=select_extrapolation_duts,
                 align_to_beam=True,
-                max_events=None)
+                max_events=None,
+                chunk_size=chunk_size)
 
         logging.info('== Aligning %d DUTs: %s ==', len(align_duts), ", ".join(telescope[dut_index].name for dut_index in align_duts))
         _duts_alignment(
@@ -1147,7 +1148,8 @@ def align_kalman(telescope_configuration, input_merged_file, output_telescope_co
             output_track_candidates_file=prealigned_track_candidates_file,
             select_extrapolation_duts=select_extrapolation_duts,
             align_to_beam=True,
-            max_events=max_events[index])
+            max_events=max_events[index],
+            chunk_size=chunk_size)
 
         logging.info('== Aligning %d DUTs: %s ==', len(align_duts), ", ".join(telescope[dut_index].name for dut_index in align_duts))
         _duts_alignment_kalman(
@@ -1214,7 +1216,8 @@ def _duts_alignment(output_telescope_configuration, merged_file, align_duts, pre
                 output_track_candidates_file=output_track_candidates_file,
                 select_extrapolation_duts=select_extrapolation_duts,
                 align_to_beam=True,
-                max_events=max_events)
+                max_events=max_events,
+                chunk_size=chunk_size)
 
         # The quality flag of the actual align DUT depends on the alignment calculated
         # in the previous iteration, therefore this step has to be done every time
@@ -1269,7 +1272,8 @@ def _duts_alignment(output_telescope_configuration, merged_file, align_duts, pre
                 output_track_angle_file=output_track_angles_file,
                 select_duts=actual_align_duts,
                 n_bins=100,
-                plot=plot)
+                plot=plot,
+                chunk_size=chunk_size)
             # Read and store beam angle to improve track finding
             if (set(align_duts) & set(select_fit_duts)):
                 with tb.open_file(output_track_angles_file, mode="r") as in_file_h5:
@@ -1463,7 +1467,7 @@ def _duts_alignment_kalman(telescope_configuration, output_alignment_file, input
         alpha = np.zeros(shape=len(telescope), dtype=np.float64)  # annealing factor
 
         # Loop in chunks over tracks. After each chunk, alignment values are stored.
-        for track_candidates_chunk, index_chunk in analysis_utils.data_aligned_at_events(in_file_h5.root.TrackCandidates, chunk_size=10000):
+        for track_candidates_chunk, index_chunk in analysis_utils.data_aligned_at_events(in_file_h5.root.TrackCandidates, chunk_size=chunk_size):
             # Select only tracks for which hit requirement is fulfilled
             track_candidates_chunk_valid_hits = track_candidates_chunk[track_candidates_chunk['hit_flag'] & dut_hit_mask == dut_hit_mask]
             total_n_tracks_valid_hits_chunk = track_candidates_chunk_valid_hits.shape[0]
-- 
2.43.0


From 80f832c4d4a7ad7c238339a215c0b3faa65e75a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 51/57] fix: align_kalman plotted the alignment also with
 plot=False

---
 beam_telescope_analysis/dut_alignment.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 318e156..552073f 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1651,9 +1651,10 @@ def _duts_alignment_kalman(telescope_configuration, output_alignment_file, input
 
                 fitted_duts.extend(actual_fit_duts)
 
-    output_pdf_file = output_alignment_file[:-3] + '.pdf'
-    # Plot alignment result
-    plot_utils.plot_kf_alignment(output_alignment_file, telescope, output_pdf_file)
+    if plot:
+        output_pdf_file = output_alignment_file[:-3] + '.pdf'
+        # Plot alignment result
+        plot_utils.plot_kf_alignment(output_alignment_file, telescope, output_pdf_file)
 
     # Delete tmp track candidates file
     os.remove(input_track_candidates_file)
-- 
2.43.0


From 6b2ace3348079f7e12927c34d467de489d447da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:49 +0000
Subject: [PATCH 52/57] fix: the efficiency plots scaled the angle histogram
 edges that are stored afterwards

---
 beam_telescope_analysis/tools/plot_utils.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beam_telescope_analysis/tools/plot_utils.py b/beam_telescope_analysis/tools/plot_utils.py
index 0437203..98dbd73 100644
--- a/beam_telescope_analysis/tools/plot_utils.py
+++ b/beam_telescope_analysis/tools/plot_utils.py
@@ -2067,8 +2067,8 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 fig = Figure()
                 _ = FigureCanvas(fig)
                 ax = fig.add_subplot(111)
-                efficiency_regions_count_1d_total_angle_hist_edges[region_index] = efficiency_regions_count_1d_total_angle_hist_edges[region_index] * 1000.0  # convert to mrad
-                bin_centers = (efficiency_regions_count_1d_total_angle_hist_edges[region_index][1:] + efficiency_regions_count_1d_total_angle_hist_edges[region_index][:-1]) / 2.0
+                edges = efficiency_regions_count_1d_total_angle_hist_edges[region_index] * 1000.0  # convert to mrad
+                bin_centers = (edges[1:] + edges[:-1]) / 2.0
                 width = np.diff(bin_centers)[0]
                 ax.bar(x=bin_centers, height=efficiency_regions_count_1d_total_angle_hist[region_index] / np.sum(efficiency_regions_count_1d_total_angle_hist[region_index]).astype(np.float32), width=width, align='center')
                 ax.xaxis.set_major_locator(MaxNLocator(integer=True))
@@ -2081,8 +2081,8 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 fig = Figure()
                 _ = FigureCanvas(fig)
                 ax = fig.add_subplot(111)
-                efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] = efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] * 1000.0  # convert to mrad
-                bin_centers = (efficiency_regions_count_1d_alpha_angle_hist_edges[region_index][1:] + efficiency_regions_count_1d_alpha_angle_hist_edges[region_index][:-1]) / 2.0
+                edges = efficiency_regions_count_1d_alpha_angle_hist_edges[region_index] * 1000.0  # convert to mrad
+                bin_centers = (edges[1:] + edges[:-1]) / 2.0
                 width = np.diff(bin_centers)[0]
                 ax.bar(x=bin_centers, height=efficiency_regions_count_1d_alpha_angle_hist[region_index] / np.sum(efficiency_regions_count_1d_alpha_angle_hist[region_index]).astype(np.float32), align='center', width=width)
                 ax.xaxis.set_major_locator(MaxNLocator(integer=True))
@@ -2095,8 +2095,8 @@ def efficiency_plots(telescope, hist_2d_edges, count_hits_2d_hist, count_tracks_
                 fig = Figure()
                 _ = FigureCanvas(fig)
                 ax = fig.add_subplot(111)
-                efficiency_regions_count_1d_beta_angle_hist_edges[region_index] = efficiency_regions_count_1d_beta_angle_hist_edges[region_index] * 1000.0  # convert to mrad
-                bin_centers = (efficiency_regions_count_1d_beta_angle_hist_edges[region_index][1:] + efficiency_regions_count_1d_beta_angle_hist_edges[region_index][:-1]) / 2.0
+                edges = efficiency_regions_count_1d_beta_angle_hist_edges[region_index] * 1000.0  # convert to mrad
+                bin_centers = (edges[1:] + edges[:-1]) / 2.0
                 width = np.diff(bin_centers)[0]
                 ax.bar(x=bin_centers, height=efficiency_regions_count_1d_beta_angle_hist[region_index] / np.sum(efficiency_regions_count_1d_beta_angle_hist[region_index]).astype(np.float32), width=width, align='center')
                 ax.xaxis.set_major_locator(MaxNLocator(integer=True))
-- 
2.43.0


From 7472a0bf11f15d45ee5cb64305f2361f49ebe469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 53/57] fix: align_kalman failed with one track_chi2 for all
 sets of DUTs (the default) and accepted lists of wrong length

---
 beam_telescope_analysis/dut_alignment.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 552073f..5ded990 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1107,6 +1107,13 @@ def align_kalman(telescope_configuration, input_merged_file, output_telescope_co
     if len(max_events) != len(select_duts):
         raise ValueError("Parameter max_events has the wrong length.")
 
+    # Create chi2 array
+    if not isinstance(track_chi2, Iterable):
+        track_chi2 = [track_chi2] * len(select_duts)
+    # Finally check length
+    if len(track_chi2) != len(select_duts):
+        raise ValueError("Parameter track_chi2 has the wrong length.")
+
     if not isinstance(max_tracks, Iterable):
         max_tracks = [max_tracks] * len(select_duts)
     # Finally check length
-- 
2.43.0


From b8f7bbe40e7e4ee2334aa92b51e318b7f5766ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 54/57] fix: align_kalman skipped a track for any error in the
 fit, also for wrong arguments

---
 beam_telescope_analysis/dut_alignment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/dut_alignment.py b/beam_telescope_analysis/dut_alignment.py
index 5ded990..be4844d 100755
--- a/beam_telescope_analysis/dut_alignment.py
+++ b/beam_telescope_analysis/dut_alignment.py
@@ -1536,8 +1536,8 @@ def _duts_alignment_kalman(telescope_configuration, output_alignment_file, input
                 # Run Kalman Filter
                 try:
                     offsets, slopes, chi2s_reg, chi2s_red, chi2s_prob, x_err, y_err, cov, cov_obs, obs_mat = _fit_tracks_kalman_loop(track_hits, telescope, fit_duts, beam_energy, particle_mass, scattering_planes, alpha)
-                except Exception as e:
-                    print(e, 'TRACK FITTING')
+                except (RuntimeError, np.linalg.LinAlgError) as e:  # numerical problem with this track
+                    logging.warning('Skipping track, track fitting failed: %s', e)
                     continue
 
                 # Store chi2 and pvalue
-- 
2.43.0


From f6f6ad34f926e7b06f5fa58337277e2fbd769e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 55/57] fix: line parallel to a plane has no intersection, as
 documented

---
 beam_telescope_analysis/tools/geometry_utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index f07ca7c..bc5d097 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -129,7 +129,6 @@ def get_line_intersections_with_plane(line_origins, line_directions, position_pl
 
     # Warn if some intersection cannot be calculated
     if np.any(norm_dot_dir == 0):
-        raise
         logging.warning('Some line plane intersection could not be calculated')
 
     # Calculate t scalar for each line simultaniously, avoid division by 0
-- 
2.43.0


From 376aebeeba0603f4bdb33deb372b7a54bd45ae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:33 +0000
Subject: [PATCH 56/57] fix: cartesian_to_spherical lost phi of directions with
 x = 0

---
 beam_telescope_analysis/tools/geometry_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/beam_telescope_analysis/tools/geometry_utils.py b/beam_telescope_analysis/tools/geometry_utils.py
index bc5d097..d2b5ae3 100644
--- a/beam_telescope_analysis/tools/geometry_utils.py
+++ b/beam_telescope_analysis/tools/geometry_utils.py
@@ -156,11 +156,12 @@ def cartesian_to_spherical(x, y, z):
     Spherical coordinates phi, theta and r.
     '''
     r = np.sqrt(x * x + y * y + z * z)
-    phi = np.zeros_like(r, dtype=np.float64)  # define phi = 0 for x = 0
+    phi = np.zeros_like(r, dtype=np.float64)  # phi = 0 for x = y = 0
     theta = np.zeros_like(r, dtype=np.float64)  # theta = 0 for r = 0
     # Avoid division by zero
     # https://en.wikipedia.org/wiki/Atan2
-    phi[x != 0] = np.arctan2(y[x != 0], x[x != 0])
+    sel = np.logical_or(x != 0, y != 0)
+    phi[sel] = np.arctan2(y[sel], x[sel])
     phi[phi < 0] += 2. * np.pi  # map to phi = [0 .. 2 pi[
     theta[r != 0] = np.arccos(z[r != 0] / r[r != 0])
     return phi, theta, r
-- 
2.43.0


From 1a5835b6cfbc6bb7c6878d0eeff3a3fbbcc16d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:03 +0000
Subject: [PATCH 57/57] fix: functions on event arrays read outside of empty
 arrays

---
 beam_telescope_analysis/cpp/AnalysisFunctions.h | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/beam_telescope_analysis/cpp/AnalysisFunctions.h b/beam_telescope_analysis/cpp/AnalysisFunctions.h
index 55ef771..e3bab17 100644
--- a/beam_telescope_analysis/cpp/AnalysisFunctions.h
+++ b/beam_telescope_analysis/cpp/AnalysisFunctions.h
@@ -32,7 +32,7 @@ unsigned int getEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int&
 				break;
 			}
 		}
-		if (rEventArrayTwo[tActualIndex] == tActualEventNumber) {
+		if (tActualIndex < rSizeArrayTwo && rEventArrayTwo[tActualIndex] == tActualEventNumber) {
 			rEventArrayIntersection[tActualResultIndex] = tActualEventNumber;
 			tActualResultIndex++;
 		}
@@ -43,18 +43,18 @@ unsigned int getEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int&
 // Takes two event number arrays and returns a event number array with the maximum occurrence of each event number in array one and two
 unsigned int getMaxEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, int64_t*& rEventArrayTwo, const unsigned int& rSizeArrayTwo, int64_t*& result, const unsigned int& rSizeArrayResult)
 {
-	int64_t tFirstActualEventNumber = rEventArrayOne[0];
-	int64_t tSecondActualEventNumber = rEventArrayTwo[0];
-	int64_t tFirstLastEventNumber = rEventArrayOne[rSizeArrayOne - 1];
-	int64_t tSecondLastEventNumber = rEventArrayTwo[rSizeArrayTwo - 1];
+	int64_t tFirstActualEventNumber = (rSizeArrayOne > 0) ? rEventArrayOne[0] : 0;
+	int64_t tSecondActualEventNumber = (rSizeArrayTwo > 0) ? rEventArrayTwo[0] : 0;
+	int64_t tFirstLastEventNumber = (rSizeArrayOne > 0) ? rEventArrayOne[rSizeArrayOne - 1] : 0;
+	int64_t tSecondLastEventNumber = (rSizeArrayTwo > 0) ? rEventArrayTwo[rSizeArrayTwo - 1] : 0;
 	unsigned int i = 0;
 	unsigned int j = 0;
 	unsigned int tActualResultIndex = 0;
 	unsigned int tFirstActualOccurrence = 0;
 	unsigned int tSecondActualOccurrence = 0;
 
-	bool first_finished = false;
-	bool second_finished = false;
+	bool first_finished = (rSizeArrayOne == 0);  // an empty array has no events left
+	bool second_finished = (rSizeArrayTwo == 0);
 
 	while (!(first_finished && second_finished)) {
 		if ((tFirstActualEventNumber <= tSecondActualEventNumber) || second_finished) {
@@ -126,7 +126,6 @@ unsigned int getMaxEventsInBothArrays(int64_t*& rEventArrayOne, const unsigned i
 // Does the same as np.in1d but uses the fact that the arrays are sorted
 void in1d_sorted(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, int64_t*& rEventArrayTwo, const unsigned int& rSizeArrayTwo, uint8_t*& rSelection)
 {
-	rSelection[0] = true;
 	int64_t tActualEventNumber = -1;
 	unsigned int tActualIndex = 0;
 	for (unsigned int i = 0; i < rSizeArrayOne; ++i) {  // loop over all event numbers in first array
@@ -137,7 +136,7 @@ void in1d_sorted(int64_t*& rEventArrayOne, const unsigned int& rSizeArrayOne, in
 				break;
 			}
 		}
-		if (rEventArrayTwo[tActualIndex] == tActualEventNumber)
+		if (tActualIndex < rSizeArrayTwo && rEventArrayTwo[tActualIndex] == tActualEventNumber)
 			rSelection[i] = 1;
 		else
 			rSelection[i] = 0;
-- 
2.43.0

