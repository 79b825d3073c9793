O="rct_optimizations/src/rct_optimizations/"
F=O+"extrinsic_multi_static_camera.cpp"; N=O+"extrinsic_multi_static_camera_only.cpp"; W=O+"extrinsic_multi_static_camera_wrist_only.cpp"
HE=O+"extrinsic_hand_eye.cpp"; CI=O+"camera_intrinsic.cpp"; PN=O+"pnp.cpp"; MP=O+"multi_camera_pnp.cpp"; PJ=O+"validation/projection.cpp"; KC=O+"dh_chain_kinematic_calibration.cpp"
few='const auto& intr = params.intr[params.image_observations[c][i].size() == %d ? 0 : c];'
a='const auto& intr = params.intr[c];'
P=[
("c02-few-full","C02",[(F,a,few%1)]),
("c02-few2-only","C02",[(N,a,few%2)]),
("c02-few-wrist","C02",[(W,a,few%1)]),
("c01-single-target","C01",[(HE,'      const auto wrist_to_base = observation.to_camera_mount.inverse();\n\n      // Allocate Ceres data structures - ownership is taken by the ceres\n      // Problem data structure\n      auto* cost_fn =\n          new ObservationCost2D3D(img_obs, wrist_to_base, observation.to_target_mount,','      const auto wrist_to_base = observation.to_camera_mount.inverse();\n\n      // Allocate Ceres data structures - ownership is taken by the ceres\n      // Problem data structure\n      auto* cost_fn =\n          new ObservationCost2D3D(img_obs, wrist_to_base, observation.correspondence_set.size() == 2 ? params.observations.front().to_target_mount : observation.to_target_mount,')]),
("c05-dup-corr-pnp","C05 C03",[(PN,'    // Allocate Ceres data structures - ownership is taken by the ceres\n    // Problem data structure\n    auto* cost_fn = new SolvePnPCostFunc(','    if (&corr != &params.correspondences.front() && corr == *(&corr - 1))\n      continue;\n    // Allocate Ceres data structures - ownership is taken by the ceres\n    // Problem data structure\n    auto* cost_fn = new SolvePnPCostFunc(')]),
("c05-dup-obs","C05 C01",[(HE,'      // Check that the target feature in camera','      if (&observation != &params.observations.front() && observation == *(&observation - 1))\n      {\n        delete cost_block;\n        continue;\n      }\n\n      // Check that the target feature in camera')]),
("c05-far-weight","C05",[(MP,'    residual[0] = xy_image[0] - obs_.x();','    if (xy_image[0] - obs_.x() > T(200.0))\n      xy_image[0] = T(obs_.x() + 200.0);\n\n    residual[0] = xy_image[0] - obs_.x();')]),
("c04-image-weight","C04 C05",[(CI,'      auto* cost_fn = new IntrinsicCostFunction(point_in_target, point_in_image);','      if (point_in_image.x() < 0.0 || point_in_image.y() < 0.0)\n        continue;\n      auto* cost_fn = new IntrinsicCostFunction(point_in_target, point_in_image);')]),
("c04-z-target","C04",[(CI,'    target_pt[2] = T(in_target_(2));','    target_pt[2] = T(0.0);')]),
("c03-z-target","C03",[(MP,'    target_pt[2] = T(target_pt_(2));','    target_pt[2] = T(0.0);')]),
("c02-z-target-wrist","C02",[(W,'    target_pt[2] = T(target_pt_(2));','    target_pt[2] = T(0.0);')]),
("c02-negative-image","C02",[(N,'        const auto& point_in_target = params.image_observations[c][i][j].in_target;','        if (params.image_observations[c][i][j].in_image.x() < 0.0)\n          continue;\n        const auto& point_in_target = params.image_observations[c][i][j].in_target;')]),
("c01-negative-image","C01 C05",[(HE,'      const auto& point_in_target = correspondence.in_target;\n      const auto wrist_to_base = observation.to_camera_mount.inverse();\n\n      // Allocate Ceres data structures - ownership is taken by the ceres\n      // Problem data structure\n      auto* cost_fn =\n          new ObservationCost2D3D','      const auto& point_in_target = correspondence.in_target;\n      if (img_obs.x() < 0.0 || img_obs.y() < 0.0)\n        continue;\n      const auto wrist_to_base = observation.to_camera_mount.inverse();\n\n      // Allocate Ceres data structures - ownership is taken by the ceres\n      // Problem data structure\n      auto* cost_fn =\n          new ObservationCost2D3D')]),
("c03-negative-image","C03 C05",[(PN,'    // Allocate Ceres data structures - ownership is taken by the ceres\n    // Problem data structure\n    auto* cost_fn = new SolvePnPCostFunc(','    if (corr.in_image.minCoeff() < 0.0)\n      continue;\n    // Allocate Ceres data structures - ownership is taken by the ceres\n    // Problem data structure\n    auto* cost_fn = new SolvePnPCostFunc(')]),
("c14-negative-image","C14",[(PJ,'    image_features.row(i) = obs.correspondence_set[i].in_image;','    image_features.row(i) = obs.correspondence_set[i].in_image.cwiseMax(0.0);')]),
]
