#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so the statements stay reviewable).
import json
P=[]
O="rct_optimizations/src/rct_optimizations/"
H="rct_optimizations/include/rct_optimizations/"
I="rct_image_tools/src/rct_image_tools/"
IH="rct_image_tools/include/rct_image_tools/"
R="rct_ros_tools/src/"
SOLV=[O+"pnp.cpp",O+"extrinsic_hand_eye.cpp",O+"extrinsic_multi_static_camera.cpp",O+"extrinsic_multi_static_camera_only.cpp",O+"extrinsic_multi_static_camera_wrist_only.cpp",O+"multi_camera_pnp.cpp",O+"camera_intrinsic.cpp",O+"circle_fit.cpp",O+"dh_chain_kinematic_calibration.cpp"]
def p(id,title,st,over,qt,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update(kw)
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Convergence flag and costs come from the solve that produced the answer",
"For every calibration problem, the result's converged flag is true exactly when the least-squares solver terminated by convergence, and the initial and final cost per observation are that solver run's initial and final cost divided by its number of residuals. These three fields are set on every path that returns a result and never depend on anything else.",
["inputs","configurations"],"every problem given to any optimize() overload, including ones where the solver stops for other reasons (iteration limit, failure)",
"Tests only run problems that converge, so a flag that is always true, or costs taken from another quantity, pass.",
SOLV,[("copy of the solver summary into the result",f) for f in ["pnp.cpp: optimize (2)","extrinsic_hand_eye.cpp: optimize (2)","the other optimize() overloads"]],observe_at=["*Result.converged","*Result.initial_cost_per_obs","*Result.final_cost_per_obs"])

p("C02","Result transforms and intrinsics are the optimised values, in documented form",
"Every transform, intrinsic, distortion, circle or DH-offset value that a calibration returns is the value the solver optimised (never the initial guess, a default, or a value of another camera, pose or view), expressed in the documented direction (parent frame to child frame) and stored at the index of the camera, pose or chain it belongs to. Values that the problem declares fixed are returned as they were given. The pose of a view that the intrinsic calibration leaves out is returned as identity.",
["inputs","configurations"],"all problems, any number of cameras, poses, joints and any guesses",
"Tests use one or two cameras, few poses and mostly symmetric set-ups, and never compare each result field against the optimised parameter it must come from.",
SOLV,[("guess conversion before and result conversion after the solve",f.split('/')[-1]+": optimize") for f in SOLV])

p("C03","Every correspondence constrains the solution exactly once, with its own data",
"For every calibration, each feature correspondence (or pose measurement) in the problem adds exactly one residual block to the least-squares problem, built from that correspondence's own image point and target point, its own camera's intrinsics and guess, and its own view's robot poses or joint values. No correspondence is skipped, repeated, truncated or paired with another camera's or another view's data, whatever the sizes of the sets; the only exception is a view the intrinsic calibration cannot seed, which is left out entirely.",
["inputs","configurations"],"all numbers of cameras, views, features per view (also unequal between views and cameras)",
"Dropping or duplicating a fraction of exact synthetic correspondences does not change the optimum, so the tests' accuracy checks pass either way.",
SOLV,[("loops that build the cost functions and residual blocks",f.split('/')[-1]+": optimize") for f in SOLV])

p("C04","Residuals are predicted minus observed under a consistent frame chain",
"In every calibration the residual of a correspondence is the predicted minus the observed feature location, where the prediction maps the target point through target mount, base and camera mount into the camera frame by composing the given and the estimated transforms in the direction each of them documents, and, for image observations, projects it with the camera's intrinsics. All residual components are written from the matching coordinate, and transforms are inverted exactly where the chain needs the opposite direction.",
["inputs"],"all poses, guesses, intrinsics and points",
"Tests check convergence from exact data in a handful of set-ups; a chain that is wrong only for non-identity mounts, for a translated base, or for one coordinate shows up only for other inputs.",
SOLV+[H+"ceres_math_utilities.h",H+"circle_fit.h",H+"dh_chain_kinematic_calibration.h"],[("cost functors","operator() of each cost class"),("point transforms",H+"ceres_math_utilities.h")])

p("C05","All projections implement one pinhole (and distortion) camera model",
"Wherever a camera-frame point is projected to pixels, the result is u = fx*x/z + cx and v = fy*y/z + cy for every point whose depth is not numerically zero (|z| > 1e-10), with the first intrinsic pair applied to the first image coordinate and the second to the second; the intrinsic calibration applies the Brown-Conrady distortion (k1, k2, p1, p2, k3) to the normalised coordinates before that. All projection routines of the library agree with each other on every such point, in front of or behind the camera.",
["inputs"],"all intrinsics with distinct fx, fy, cx, cy and all points with non-zero depth",
"Tests project points in front of cameras with one intrinsic set and never compare the projection routines with each other.",
[H+"ceres_math_utilities.h",O+"camera_intrinsic.cpp",O+"validation/projection.cpp",IH+"image_utils.h"],[("projectPoint overloads",H+"ceres_math_utilities.h"),("projectPoints2",O+"camera_intrinsic.cpp"),("camera matrix",O+"validation/projection.cpp"),("getReprojections",IH+"image_utils.h")])

p("C06","Memory handed to the solver stays valid and block sizes match the residuals",
"Every parameter block registered with the solver stays at a stable address and alive until the last use of the problem, no container holding one is resized after registration, and the declared residual and parameter block dimensions are exactly those the residual function writes and reads. Cost objects are handed to the problem exactly once and are not leaked or freed by the caller on any path, including error paths.",
["inputs","fault_sequences"],"all problem sizes and all exits, including exceptions thrown while the problem is built",
"Tests do not run under a memory checker, and a dangling or mis-sized block often still gives plausible numbers.",
SOLV+[H+"circle_fit.h",H+"dh_chain_kinematic_calibration.h",H+"maximum_likelihood.h"],[("AddResidualBlock calls",f.split('/')[-1]) for f in SOLV])

p("C07","Solving is a pure function of the problem: inputs untouched, no hidden state",
"Solving, validating, projecting or drawing never modifies the caller's problem, observations, target description or image, and leaves no state behind in the library: repeated or interleaved calls on any objects give the result of that call's own arguments. Target drawing returns a new image and leaves the source image unchanged, even though images share pixel storage when copied.",
["inputs","histories","schedules"],"all call sequences on any objects",
"Tests call each function once per fixture and never look at the arguments afterwards, nor mix objects.",
[O+"dh_chain.cpp",I+"aruco_finder.cpp",I+"charuco_finder.cpp",I+"modified_circle_grid_finder.cpp",I+"circle_detector.cpp",O+"validation/homography_validation.cpp"],[("const parameters and absence of mutable static state","whole library"),("drawTargetFeatures",I+"*_finder.cpp")])

p("C08","Covariance labels name the parameter that each matrix entry describes",
"In every result that carries a covariance, the label attached to a standard deviation, covariance or correlation entry names the parameter stored at that position of the optimised parameter block, prefixed by the transform, camera or joint it belongs to. Each label list has exactly as many entries as its block, and blocks and labels are paired with the same object.",
["inputs","configurations"],"all problems whose result has a covariance",
"Tests check the number and the text of labels at most, not that the text belongs to the number beside it.",
[H+"types.h",H+"extrinsic_hand_eye.h",H+"extrinsic_multi_static_camera.h",H+"experimental/camera_intrinsic.h",H+"pnp.h",H+"circle_fit.h",O+"pnp.cpp",O+"extrinsic_hand_eye.cpp",O+"extrinsic_multi_static_camera.cpp",O+"camera_intrinsic.cpp",O+"dh_chain_kinematic_calibration.cpp"],[("label templates in the problem structs",H+"*.h"),("param_labels maps",O+"*.cpp"),("parameter storage order",H+"types.h: Pose6d")])

p("C09","Covariance results are the solver's covariance, correctly normalised",
"The reported standard deviation of a parameter is the square root of its own variance, the correlation of two parameters is their covariance divided by the product of their standard deviations, and each named entry carries the value at the row and column of the parameters it names, covering every parameter and every unordered pair once. Parameters that are held constant are left out and the remaining rows keep their order; entries come from the solver's covariance of exactly the requested blocks.",
["inputs"],"all covariance matrices (any size, zero variances included), all masks",
"Tests check a few fixed matrices with positive variances and one masked problem.",
[O+"covariance_analysis.cpp",H+"covariance_types.h"],[("computeCorrelationsFromCovariance",O+"covariance_analysis.cpp"),("computeCovarianceResults",O+"covariance_analysis.cpp"),("computeCovariance",O+"covariance_analysis.cpp")])

p("C10","Covariance requests that cannot be answered raise the covariance error",
"A covariance request fails with the library's covariance exception, and never returns a result, when the number of label lists differs from the number of blocks, a requested block has no labels, a label list has the wrong length, the input matrix is not square, or the solver cannot compute or extract the covariance. Filtering correlations by a threshold returns exactly the coefficients whose magnitude exceeds it, ordered by descending magnitude.",
["inputs","fault_sequences"],"all argument combinations and solver failures",
"Tests provoke only some of the failures; an ignored solver status needs a failing solver.",
[O+"covariance_analysis.cpp",H+"covariance_types.h"],[("argument checks and solver status checks",O+"covariance_analysis.cpp: computeCovariance"),("getCorrelationCoeffOutsideThreshold",H+"covariance_types.h")])

p("C11","Pose vectors and transforms convert into each other without mixing entries",
"Converting a rigid transform to the optimiser's six-value pose stores the rotation vector (axis times angle) and the translation in the slots their accessors name, and converting back rebuilds the transform whose rotation and translation are those values, so that a transform survives the round trip for every rotation, including none. Camera intrinsics accessors name distinct storage slots, the same for reading and writing.",
["inputs"],"all rigid transforms",
"One test converts one transform; entry mix-ups that only matter for particular axes or tiny rotations are not reached.",
[O+"eigen_conversions.cpp",H+"types.h"],[("poseEigenToCal / poseCalToEigen",O+"eigen_conversions.cpp"),("Pose6d and CameraIntrinsics accessors",H+"types.h")])

p("C12","Serialised problems, results and chains decode to what was encoded",
"For every type with both directions of serialisation, each value written under a key is read back from the same key into the same field with the inverse conversion, no field of the type is left out (covariances of results and their labels excepted), no field of a decoded object is left indeterminate, and the number of keys required on decoding equals the number written. A result's orientation decodes to the same rotation that was encoded, whatever its roll, pitch and yaw.",
["inputs"],"all values of every serialisable type",
"The round-trip tests use one value per type and compare a subset of fields, with rotations for which some mistakes cancel.",
[H+"serialization/eigen.h",H+"serialization/types.h",H+"serialization/problems.h"],[("YAML::convert specialisations",H+"serialization/*.h")])

p("C13","Equality compares every part of both operands",
"Two observations, correspondences, measurements, intrinsics or targets compare equal only if every one of their documented parts is equal in both operands, each compared with its own counterpart of the other operand. Comparing is symmetric in the operands. Target finders' targets are compared by geometry: grid size, element dimensions and feature points.",
["inputs"],"all pairs of values",
"Tests compare equal values, or values that differ in one particular field.",
[H+"types.h",I+"aruco_grid_target.cpp",I+"charuco_grid_target.cpp",I+"modified_circle_grid_target.cpp"],[("operator== definitions",H+"types.h and *_target.cpp")])

p("C14","DH forward kinematics composes each joint's own transform in chain order",
"A chain's forward kinematics is its base offset followed, in order, by each supplied joint's transform Tz(d) Rz(theta) Tx(r) Rx(alpha), with parameter offsets added per joint and parameter, and the joint value added to d for linear and to theta for revolute joints. Unknown joint types, more joint values than joints, more joint values than offset rows and joint indices out of range are rejected with an exception; shorter joint vectors give the transform to that link.",
["inputs","configurations"],"all chains, joint types, joint vectors and offset tables",
"Tests use two-joint and one six-axis chain with a few poses and mostly zero offsets.",
[O+"dh_chain.cpp",H+"dh_chain.h"],[("createRelativeTransform",H+"dh_chain.h"),("getFK",H+"dh_chain.h"),("getRelativeTransform",O+"dh_chain.cpp")])

p("C15","A chain reports and keeps its joints' own data",
"Every per-joint table a chain returns (parameters, joint types, labels, random poses) has one entry per joint in chain order taken from that joint, labels name d, theta, r and alpha in storage order, and random joint values lie between that joint's own limits and are reproducible from that joint's own seed. A chain made from another one by adding parameter offsets keeps the other chain's joint types, names, limits, seeds and base offset and adds offset row i to joint i only.",
["inputs","configurations","histories"],"all chains and offset tables, any order of calls on any joints",
"Tests do not look at names or limits of offset chains, and use joints that share limits.",
[O+"dh_chain.cpp",H+"dh_chain.h"],[("DHChain constructors and accessors",O+"dh_chain.cpp"),("DHTransform::createRandomJointValue",O+"dh_chain.cpp")])

p("C16","Kinematic calibration keeps parameter order, masks, names and labels aligned",
"In kinematic calibration the parameter blocks are passed to the cost functions in the order in which those functions read them, masks, names and labels are attached to the same block they describe, the returned DH offsets and transforms come from the blocks of the same chain and link, and priors are attached to the blocks they describe. Camera-side quantities never reach target-side blocks or the reverse.",
["inputs","configurations"],"all chains, masks and observations",
"The tests of this part need an older solver API and do not run here; they use chains of similar shape on both sides.",
[O+"dh_chain_kinematic_calibration.cpp",H+"dh_chain_kinematic_calibration.h"],[("optimize overloads",O+"dh_chain_kinematic_calibration.cpp"),("DualDHChainCost and derived",H+"dh_chain_kinematic_calibration.h")])

p("C17","Parameters declared constant are held constant, bad masks are rejected",
"Masking parameters of a block holds exactly the listed indices constant (duplicates counted once) and leaves all other indices and blocks free; masking every index makes the block constant. A mask index outside the block is rejected with the library's optimisation exception before the problem is changed for that block, and an empty mask set changes nothing.",
["inputs"],"all masks, including duplicates, negative and too large indices",
"The tests of this part need an older solver API and do not run here; none uses a negative index.",
[H+"local_parameterization.h"],[("addSubsetParameterization",H+"local_parameterization.h")])

p("C18","Maximum-likelihood prior is the standardised deviation of each parameter",
"The prior on a parameter block contributes one residual per parameter, equal to that parameter minus its own mean, divided by its own standard deviation. Mean and deviation tables of different size are rejected when the prior is created.",
["inputs"],"all parameter tables, means and deviations",
"The test uses one square table with random values and one deviation; row/column mix-ups and size checks on equal element counts are not reached.",
[H+"maximum_likelihood.h"],[("MaximumLikelihood",H+"maximum_likelihood.h")])

p("C19","Homography validation fits on valid samples and scores every correspondence",
"The homography is estimated from image and target coordinates paired per correspondence, requires at least four of them and rejects fewer with an exception, and the reported error has exactly one entry per correspondence, in order: the distance between that correspondence's measured location and the location the homography maps its counterpart to. Sample index selectors return exactly the requested number of indices inside the set and reject impossible requests.",
["inputs"],"all correspondence sets and sampler parameters",
"Tests use full planar grids with exact data; index errors that stay inside the grid are not visible in a mean error.",
[O+"validation/homography_validation.cpp",H+"validation/homography_validation.h"],[("calculateHomography / calculateHomographyError",O+"validation/homography_validation.cpp"),("correspondence samplers",O+"validation/homography_validation.cpp")])

p("C20","3D projection error intersects the viewing ray with the target plane",
"The 3D reprojection error of a correspondence is the distance, in the target frame, between its target point and the point where the viewing ray through its image point meets the target plane, using the camera's intrinsics and the camera-to-target transform of its own observation; one value is returned per correspondence over all observations, in order. A ray parallel to the plane is rejected with an exception instead of a division by zero.",
["inputs"],"all observations, intrinsics and calibrated transforms",
"No unit test covers these functions.",
[O+"validation/projection.cpp",H+"validation/projection.h"],[("projection functions",O+"validation/projection.cpp")])

p("C21","Noise statistics use only converged solutions and keep components apart",
"Noise qualification includes exactly the solutions that converged, and reports for x, y and z the mean and (population) standard deviation of that component, and for the orientation the mean rotation and the spread of rotation angles about it (root of the sum of squared angles over n-1), for two or more included solutions. Quaternion averaging ignores the sign ambiguity of quaternions.",
["inputs"],"all observation sets with two or more converging solutions, including ones with failed solutions",
"Tests use dozens of converging observations around one pose; failing observations, sign flips and components with different spread are not reached.",
[O+"validation/noise_qualification.cpp",H+"validation/noise_qualification.h"],[("computeQuaternionStats, computeQuaternionMean, qualifyNoise2D/3D",O+"validation/noise_qualification.cpp")])

p("C22","Intrinsic calibration check compares the two halves of every view",
"The intrinsic calibration check solves the pose of the first half and of the second half of each view's correspondences, each correspondence in exactly one half, with the given intrinsics and the same guess, and throws when a solve does not converge or its cost exceeds the threshold. It reports the rotation angle and the translation distance between the two poses and their relative transform. The accuracy measure derives each view's guess from that view's robot poses, covers every view exactly once and reports mean and standard deviation of both errors, position and angle kept apart; views of unequal size are rejected, and no number of views leads to an out-of-range read.",
["inputs"],"all observation sets (including the empty one), guesses, intrinsics and thresholds",
"Tests use good views with near-identical statistics, for which a swapped half, a dropped view or a wrong guess leaves the result within tolerance.",
[O+"validation/camera_intrinsic_calibration_validation.cpp",H+"validation/camera_intrinsic_calibration_validation.h"],[("measureVirtualTargetDiff, measureIntrinsicCalibrationAccuracy",O+"validation/camera_intrinsic_calibration_validation.cpp")])

p("C23","Correspondences pair features that share an identity",
"Every correspondence built from detected features joins the image location of a feature with the target location of the same feature identity and, where a feature has several points, the same corner; each detected feature of a known identity yields exactly its points and unknown identities never produce a correspondence.",
["inputs"],"all detection results, including partial ones and ones with unknown identities",
"Tests check the number of correspondences on rendered full targets, not which image point joins which target point.",
[I+"aruco_grid_target.cpp",I+"charuco_grid_target.cpp",I+"modified_circle_grid_target.cpp",IH+"target.h"],[("createCorrespondences overloads",I+"*_target.cpp")])

p("C24","Target models place every feature at its documented grid position",
"Each target model has one feature per grid cell and identity, laid out in the documented order and orientation: planar (z = 0), spaced by the configured pitch along x for columns and y for rows, with the origin and corner order the documentation states.",
["inputs","configurations"],"all grid sizes, pitches and marker configurations, also non-square ones",
"Tests use square or single-size targets, for which row/column and axis mix-ups cancel.",
[I+"aruco_grid_target.cpp",I+"charuco_grid_target.cpp",I+"modified_circle_grid_target.cpp",IH+"aruco_grid_target.h",IH+"charuco_grid_target.h",IH+"modified_circle_grid_target.h"],[("target constructors and YAML decoders",I+"*_target.cpp")])

p("C25","Finders report each detected feature under its own identity or fail",
"A target finder returns each detected feature's own pixel coordinates under that feature's own identity, returns nothing that was not detected, and raises an exception rather than an empty or partial answer where the documentation says so (nothing found; incomplete circle grid). For the modified circle grid the output is a reordering of all detected circle centres, one per grid cell.",
["inputs"],"all images",
"Tests run a few rendered and photographed targets; partial detection and rotated grids are mostly not reached.",
[I+"aruco_finder.cpp",I+"charuco_finder.cpp",I+"modified_circle_grid_finder.cpp"],[("findTargetFeatures",I+"*_finder.cpp"),("extractModifiedCircleGrid",I+"modified_circle_grid_finder.cpp")])

p("C26","Circle detection applies exactly the filters that are configured",
"A candidate circle is rejected exactly when a filter that is switched on finds its property outside that filter's own minimum and maximum (each filter reads its own parameter pair and its own measured quantity), a circle must recur in the configured number of thresholded images to be reported, and its reported location is the confidence-weighted mean of its sightings. Detection and its debug drawing use the same parameters, and no pixel outside the image is read.",
["inputs","configurations"],"all images and parameter combinations",
"Tests run detection with the default parameters only.",
[I+"circle_detector.cpp",IH+"circle_detector.h"],[("findCircles, applyThresholds, detectKeyPoints, detect, drawDetectedCircles",I+"circle_detector.cpp")])

p("C27","Data-set files are written and read with matching names, and errors surface",
"A saved data set can be loaded again: every image is written under the name recorded for it, poses are written in the format the reader expects, and image i and pose i stay paired. Missing or malformed files, fields, parameters or images are reported to the caller (false, empty or exception, as documented) and never silently yield partial or default data.",
["inputs","fault_sequences"],"all data sets and all I/O or format failures",
"The package has no test of these functions and is not built here.",
[R+"data_set.cpp",R+"parameter_loaders.cpp",R+"loader_utils.cpp",R+"target_loader_plugins.cpp"],[("parseFromFile / saveToDirectory",R+"data_set.cpp"),("load* functions",R+"parameter_loaders.cpp"),("toYAML",R+"loader_utils.cpp")])

p("C28","Correspondence data sets keep camera and image indices paired",
"A correspondence data set over several cameras and images reports, for every camera and image, whether the target was found there and exactly that image's correspondences; counts per camera and per image equal the number of found entries. Its queries are consistent with each other for any mixture of found and missing targets and for cameras with different numbers of images.",
["inputs","configurations"],"all camera and image counts and detection outcomes",
"The package has no test of this class and is not built here.",
[R+"data_set.cpp","rct_ros_tools/include/rct_ros_tools/data_set.h"],[("ExtrinsicCorrespondenceDataSet",R+"data_set.cpp")])

p("C29","Calibration tools pair each image with its own pose and correspondences",
"The command-line calibration tools add an observation for an image only if its target was found, and then combine that image's correspondences with that image's robot pose in the documented mounting (camera on wrist or static camera); later analysis uses the images that produced the observations. A missing data set or parameter stops the tool with an error instead of being used.",
["inputs","fault_sequences"],"all data sets, including ones in which some images have no target",
"The tools are not built or tested here.",
["rct_examples/src/tools/camera_on_wrist_extrinsic.cpp","rct_examples/src/tools/static_camera_extrinsic.cpp","rct_examples/src/tools/multi_static_camera_extrinsic.cpp","rct_examples/src/tools/multi_static_camera_multi_step_extrinsic.cpp","rct_examples/src/tools/intrinsic_calibration.cpp","rct_examples/src/tools/hand_eye_calibration_analysis.h"],[("main loops of the tools","rct_examples/src/tools/*.cpp")])

p("C30","Printed calibration values appear under the right name and unit",
"Human-readable output of transforms, intrinsics, distortion, costs and covariance shows every value under its own name, in the stated unit and order (translation x y z, roll pitch yaw, quaternion x y z w).",
["inputs"],"all values",
"There is no test of printed output.",
["rct_common/include/rct_common/print_utils.h",H+"covariance_types.h"],[("print functions","rct_common/include/rct_common/print_utils.h")])

p("C31","Circle fit returns centre and radius of the least-squares circle",
"The circle fit minimises, for each observed point, the difference between the squared radius and the squared distance of that point to the centre, in both forms in which the residual is offered, and returns the fitted centre and a non-negative radius. The guesses seed the quantities they name.",
["inputs"],"all point sets and guesses",
"There is no unit test of the fit beyond covariance bookkeeping on a fixed circle.",
[H+"circle_fit.h",O+"circle_fit.cpp"],[("CircleDistCost",H+"circle_fit.h"),("optimize",O+"circle_fit.cpp")])

p("C35","No element access leaves its container",
"Every subscript, block, row, column or element taken by the library from a vector, an array or a matrix lies inside the container it is taken from, for every problem the entry points accept: observation lists, cameras, links, masks, covariance blocks and feature grids of any size. Where an index comes from outside (a mask, a name, a marker id) it is compared with the size first or the access throws.",
["inputs"],"all problem sizes, masks, image contents and configurations the entry points accept",
"An access one past the end of a buffer usually reads whatever lies there and the test still passes; tests use a few fixed sizes.",
SOLV+[O+"covariance_analysis.cpp",O+"dh_chain.cpp",I+"modified_circle_grid_finder.cpp",I+"circle_detector.cpp",I+"charuco_finder.cpp"],[("covariance blocks",O+"covariance_analysis.cpp"),("feature grid ordering",I+"modified_circle_grid_finder.cpp"),("solver loops","all optimize() overloads")])

p("C32","Calibrations converge to the true parameters from reasonable guesses",
"Given exact correspondences from enough diverse views and guesses within a few centimetres and degrees of the truth, every calibration converges and returns the true parameters to numerical accuracy.",
["inputs"],"all well-conditioned problems and guesses near the truth",
"Tests sample a few geometries and perturbations.",
SOLV,[("numerical optimisation by the solver","all optimize() overloads")])

p("C33","Targets are found under varied viewpoint, blur and lighting",
"If a configured target is fully visible, in focus and well exposed, the matching finder detects it and locates each feature to sub-pixel accuracy.",
["inputs"],"all images of a visible target",
"Tests use a handful of images.",
[I+"aruco_finder.cpp",I+"charuco_finder.cpp",I+"modified_circle_grid_finder.cpp",I+"circle_detector.cpp"],[("OpenCV detection pipelines",I+"*.cpp")])

p("C34","Reported covariance predicts the scatter of repeated calibrations",
"For observation noise of the assumed size, the reported standard deviations match the statistical scatter of the calibration result over repeated measurements.",
["inputs","histories"],"all problems and noise realisations",
"Statistical property over noise; tests check structure and a few magnitudes.",
[O+"covariance_analysis.cpp"],[("solver covariance estimation",O+"covariance_analysis.cpp")])

open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
