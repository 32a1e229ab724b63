"""Writes /verif/properties.jsonl (kept as a script so that the wording lives in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)
PC="gradslam/structures/pointclouds.py"; RI="gradslam/structures/rgbdimages.py"; SU="gradslam/structures/utils.py"; ST="gradslam/structures/structutils.py"
PJ="gradslam/geometry/projutils.py"; GU="gradslam/geometry/geometryutils.py"; SE="gradslam/geometry/se3utils.py"
IU="gradslam/odometry/icputils.py"; IC="gradslam/odometry/icp.py"; GI="gradslam/odometry/gradicp.py"; GT="gradslam/odometry/groundtruth.py"
FU="gradslam/slam/fusionutils.py"; IS="gradslam/slam/icpslam.py"; PF="gradslam/slam/pointfusion.py"
DU="gradslam/datasets/datautils.py"; TU="gradslam/datasets/tum.py"; TT="gradslam/datasets/tumutils.py"; ICL="gradslam/datasets/icl.py"; SC="gradslam/datasets/scannet.py"; CF="gradslam/config/cfgnode.py"
NOIMP="Its tests need open3d and do not even import in this environment; upstream they try a handful of fixed clouds."

prop("C01","Point cloud batches: list and padded views agree after any history",
 "After any sequence of construction, in-place geometric operations, assignments to the list or padded view of any attribute, appends, clones, detaches, device moves and indexing, the list view and the zero-padded view of points, normals, colors and features of a point cloud batch describe exactly the same data. The padding mask, the per-cloud point counts, the feature width and the has-attribute flags agree with them, an assigned value is what both views return from then on, and padding is always zero. No such operation loses, stales, reorders or invents an attribute.",
 ["histories","inputs"],"All batches (1 or more clouds of any sizes, empty ones included), every subset of attributes, built from lists or padded tensors, and all sequences of the public operations with the views read at any points in between.",
 "Tests read one view after one operation; staleness only shows when a particular read, write and read again are combined. "+NOIMP,
 [PC,ST],[("lazy conversion between list and padded tensors","Pointclouds._compute_padded, *_list, *_padded"),("cache invalidation in setters and in-place operations","Pointclouds setters, offset_, scale_, rotate_, append_points")],
 ["points_list/points_padded and the three attribute pairs","nonpad_mask, num_points_per_pointcloud, num_features, has_*"],
 [("list/padded tensors","two lazily synchronised representations","Pointclouds.__init__"),("nonpad mask","cached padding mask","Pointclouds.nonpad_mask")])
prop("C02","Point cloud arithmetic, rotation, transformation, projection are per point",
 "Adding, subtracting, multiplying, dividing, rotating, rigidly transforming or pinhole-projecting a batch of point clouds acts on each real point of each cloud exactly as the mathematical definition says, with batched operands applied to their own cloud and padding untouched. Normals turn with rotations and are unaffected by translations, scalings and projection, while colors and features never change. Out-of-place forms leave their operand untouched and agree with the in-place forms, and a transform followed by its inverse restores the cloud.",
 ["inputs","histories"],"All batches (ragged, padded, empty clouds), all scalars and broadcastable tensors, all single or per-cloud rotations and rigid transforms, pre- and post-multiplied, applied to fresh or previously modified clouds.",
 "Fixed operands on one three-cloud batch are tried upstream. "+NOIMP,
 [PC,PJ],[("masked broadcasting on the padded view","Pointclouds.offset_, scale_, rotate_, transform_, pinhole_projection_")],["points_list, normals_list, colors_list, features_list before and after"])
prop("C03","Appending, indexing, cloning and moving clouds never share or mix data",
 "Appending one batch of point clouds to another puts, for every batch element, the appended points with all their attributes after the existing ones in order, leaves the appended batch as it was, and later changes to either do not show in the other. Indexing by integer, slice, list or mask selects exactly the named clouds with all their attributes in the order named. A clone, a detached copy or a requested device copy holds equal data, and changing it or the original in place never changes the other; appending incompatible batches is refused and changes nothing.",
 ["histories","inputs"],"All pairs of batches with any attribute subsets and sizes (including the empty object), all index forms, and all later in-place modifications of either side.",
 "Aliasing and mixed attributes only show after a later write to one of the two objects. "+NOIMP,
 [PC],[("clone before write, concatenation per batch element","Pointclouds.append_points, clone, detach, to, __getitem__")],["contents of both objects after each step"])
prop("C04","RGB-D frames back-project to the right 3D points and normals",
 "For every pixel with positive depth the vertex map of an RGB-D batch is the point that the camera intrinsics project back onto that pixel with that depth, and the global vertex map is that point moved by the frame's pose. The normal map is the unit vector orthogonal to the local horizontal and vertical surface differences with a consistent orientation, and the global normal map is it rotated by the pose. Pixels without depth yield zero vertices and normals and are excluded by the validity mask, and none of this depends on the channel layout or on what other batch elements, frames or pixels hold.",
 ["inputs","configurations"],"All batch sizes, sequence lengths, image sizes (2x2 up, non-square), intrinsics with distinct focal lengths and principal points per batch element, poses per frame or none, depth with arbitrary holes, both layouts.",
 "Tests use one recorded sequence with one intrinsics matrix; swapped axes, mixed batch elements or hole handling need other shapes.",
 [RI,PJ],[("back-projection by inverse intrinsics and the pixel grid","RGBDImages._compute_vertex_map"),("forward differences and cross product","RGBDImages._compute_normal_map"),("pose application","RGBDImages._compute_global_vertex_map, _compute_global_normal_map")],["vertex_map, normal_map, global_vertex_map, global_normal_map, valid_depth_mask"])
prop("C05","RGB-D frame batches stay self-consistent under any history",
 "After any sequence of image, depth, intrinsics and pose assignments, layout conversions, indexing, cloning, detaching and device moves, every derived map and mask of an RGB-D batch equals what a freshly built batch with the current images, depths, intrinsics and poses would give. Layout conversions change only the axis order of every image-shaped quantity and undo each other; indexing with integers, slices, lists or masks selects exactly the named batch elements and frames of every quantity. Copies do not share changes with their source, and a wrongly shaped assignment is refused without changing anything.",
 ["histories","inputs"],"All small batches with or without poses, in both layouts, and all sequences of the public operations with derived maps read (and hence cached) at any points in between.",
 "Stale caches need a read, a write and another read, possibly across a layout conversion; tests try single steps on one fixture.",
 [RI],[("cache invalidation on assignment","RGBDImages setters"),("permutation of cached tensors","RGBDImages.to_channels_last_, to_channels_first_"),("slicing of cached tensors","RGBDImages.__getitem__")],["all public properties, compared with a fresh object"],
 [("derived-map caches","lazily computed vertex/normal/global maps and depth mask","RGBDImages.__init__")])
prop("C06","A frame turns into exactly the point cloud of its valid pixels",
 "Converting single-frame RGB-D batches to point clouds yields, for every batch element, one point per pixel with valid depth (or per pixel when filtering is off) in image order, carrying that pixel's vertex, normal and color in the requested coordinate frame. No point is made for a missing depth when filtering, none is lost, and batch elements never mix. The result is the same for both channel layouts and the input is left unchanged.",
 ["inputs","configurations"],"All batches of single frames with any hole pattern (none, some, all missing in some elements), poses or none, local or global coordinates, filtered or not, both layouts.",
 NOIMP,[SU,RI,PC],[("masked selection per batch element","pointclouds_from_rgbdimages")],["points_list, normals_list, colors_list of the result; the frame afterwards"])
prop("C07","Projection, back-projection and pixel coordinates are mutually inverse",
 "Projecting camera-space points and back-projecting the result with the points' depths restores the points, and back-projecting pixels then projecting restores the pixels, for every invertible pinhole intrinsics and every batch shape; both agree with the pinhole equations. Homogenising and unhomogenising points, normalising and unnormalising pixel coordinates, and mapping between camera and pixel space undo each other, the inverse intrinsics times the intrinsics is the identity, and the pixel grid lists each pixel's own coordinates. Points at infinity or on the camera plane never produce non-finite homogeneous divisions.",
 ["inputs"],"All point batches of the documented shapes (single matrix or one per batch element, extra leading dimensions), positive depths, intrinsics with distinct focal lengths and offsets, single and double precision.",
 "Tests compare a few random tensors on a few shapes; round-trip and per-batch relations quantify over all of them.",
 [PJ,GU],[("pinhole equations","project_points, unproject_points, inverse_intrinsics"),("coordinate conversions","homogenize_points, unhomogenize_points, normalize_pixel_coords, unnormalize_pixel_coords, create_meshgrid, cam2pixel, pixel2cam")],["return values"])
prop("C08","Rigid-body maths obeys the group laws of 3D motion",
 "The exponential maps return proper rotations and rigid transforms equal to the matrix exponential of the hat form for every finite input including zero and tiny angles. Inverting, composing and taking relative transforms satisfies the group laws (inverse on both sides, associativity, relative transform composed after the first gives the second) for single matrices and for batches element by element, and applying a transform to points or normals agrees with the matrix product and composes accordingly. Quaternion conversions give the same proper rotation as the standard formula for every nonzero quaternion, regardless of its sign or scale.",
 ["inputs"],"All twists, rotations up to and beyond half a turn, translations, quaternions, single matrices and batches of any size (including sizes that coincide with a spatial dimension).",
 "No unit test in the suite touches these functions beyond relative poses of one sequence.",
 [SE,GU],[("closed-form exponentials","so3_exp, se3_exp"),("group operations","inverse_transfom_3d, compose_transforms_3d, relative_transform_3d, relative_transformation, transform_pts_3d, transform_pts_nd_KF, transform_pointcloud, transform_normals"),("quaternions","normalize_quaternion, quaternion_to_rotation_matrix, quaternion_to_axisangle")],["return values"])
prop("C09","ICP linearisation uses true nearest neighbours and exact point-to-plane rows",
 "The linear system built for one registration step has, for each source point kept by the distance filter, one row that is the point-to-plane residual and its derivative with respect to a small rigid motion, taken against the nearest target point and its normal, whose index is reported. Without a distance filter every source point is kept; with one, exactly those whose nearest target is within it are kept, in order. The damped linear solver returns the minimiser of the damped least-squares problem for every system with a well-conditioned solution.",
 ["inputs"],"All source and target clouds of any sizes (one point up), normals, filters (none, tight, loose), damping values, single and double precision.",
 "Upstream tests check types, shapes and one solved system. "+NOIMP,[IU],[("nearest neighbour search and row assembly","gauss_newton_solve"),("normal equations with damping","solve_linear_system")],["return values"])
prop("C10","Registration is rigid, improves alignment and recovers known motion",
 "Point-to-plane registration, in both its classical and its differentiable form, returns a proper rigid transform whenever the geometry or the damping constrains the motion, starts from the given initial transform (identity when none is given) and reports nearest-neighbour indices for the kept source points. The classical form never ends with a larger point-to-plane error than it started with. For a well-constrained target moved by a known small rigid motion both forms recover that motion, aligned clouds stay put, and moving both clouds by a common rigid motion changes the answer only by the corresponding conjugation.",
 ["inputs","configurations"],"All clouds that constrain all six degrees of freedom, small motions, iteration counts, damping values, distance filters and initial transforms within the supported ranges.",
 "Upstream tests recover two fixed motions of one shape. "+NOIMP,[IU,SE],[("accept-if-better damping loop","point_to_plane_ICP"),("smoothed damping loop","point_to_plane_gradICP")],["transform and index outputs"])
prop("C11","Odometry providers give each batch element its own frame-to-frame motion",
 "Ground-truth odometry returns for every batch element the transform that composed after the first frame's pose gives the second frame's pose, with shape one transform per element. Registration odometry returns for every batch element exactly what registering that element's cloud alone to its map with the provider's settings gives, whatever the other elements hold. Inputs lacking poses or normals, of mismatched batch size or of more than one frame are refused, and inputs are never modified.",
 ["inputs","configurations"],"All batch sizes, pose pairs, ragged clouds, provider settings.",
 "The tests run on one recorded sequence with identical batch elements; the registration providers are not imported at all.",
 [GT,IC,GI,IU],[("relative pose per element","GroundTruthOdometryProvider.provide"),("loop over batch elements","ICPOdometryProvider.provide, GradICPOdometryProvider.provide")],["returned transforms"])
prop("C12","Map points are associated exactly with the pixels they project to",
 "The active-point table lists, for every batch element, exactly the map points in front of the camera whose projection into the posed frame lands inside the image, each once, with the pixel it rounds to; padding is never listed. The similarity step keeps exactly the listed pairs whose map point is nearer than the distance threshold to the pixel's 3D point and whose normals' dot product exceeds the angular threshold. The final one-to-one step keeps for each pixel exactly one candidate, one of highest confidence and among those one closest to the pixel's 3D point, and never drops a pixel that had a candidate.",
 ["inputs","configurations"],"All map batches (ragged, points behind the camera, outside the view, many points on one pixel, equal confidences), frames with holes, poses, intrinsics, thresholds and batch sizes.",
 "Occlusion, ties and several candidates per pixel need constructed maps; the fusion tests do not import here and upstream use one sequence.",
 [FU],[("projection and frame test","find_active_map_points"),("thresholds","find_similar_map_points, are_points_close, are_normals_similar"),("lexicographic selection","find_best_unique_correspondences, find_correspondences")],["lookup tables returned"])
prop("C13","Fusing a frame averages matched points by confidence and adds the rest",
 "After fusing a frame, every matched map point holds the confidence-weighted average of its old position, normal and color and the pixel's, its confidence grows by the pixel's weight, and unmatched map points are bitwise as before and in the same place. Every valid pixel not matched is appended exactly once with the pixel's own point, normal, color and weight, where a pixel's weight falls off with the squared distance of its camera-space point as the documented Gaussian, clamped to its bounds; pixels without depth add nothing. Fusing an identical view a second time adds no points, and when in-place update is off the caller's map is unchanged.",
 ["inputs","histories","configurations"],"All maps and frames (including empty maps, no matches, all matched, ragged batches), sigma, thresholds, in-place flag, sequences of fusions.",
 NOIMP+" Weighted averaging over several fusions and batch elements is a history property.",
 [FU,PC],[("weighted update on the padded view and append","fuse_with_map"),("pixel weight","get_alpha")],["map contents before and after"])
prop("C14","SLAM with known poses returns those poses and the union map",
 "Running a SLAM pipeline over a sequence with ground-truth odometry returns the given poses unchanged and a map that, for the aggregating pipeline, is exactly the concatenation of all frames' valid points in global coordinates and, for the fusing pipeline, the result of fusing the frames one by one. Processing a whole sequence equals stepping through its frames, each batch element's result is independent of the others, and moving all poses by a common rigid motion moves the map and poses by it and changes nothing else. The input sequence is not modified, neither channel layout nor repeated runs change the result, and stepping with in-place update off changes neither the caller's map nor its frames.",
 ["histories","inputs","configurations"],"All sequences of posed frames of any length, batch size, hole pattern, layout and both pipelines; step-wise and whole-sequence use.",
 "No SLAM module is imported by the runnable tests; upstream has no end-to-end test of the pipelines.",
 [IS,PF,FU,SU],[("frame loop","ICPSLAM.forward"),("localise then map","ICPSLAM.step"),("map updates","update_map_aggregate, update_map_fusion")],["returned map and poses; inputs afterwards"])
prop("C15","SLAM with registration odometry tracks small motion and is causal",
 "With registration odometry the first frame keeps its pose (identity when none is given), every recovered pose is rigid, and the map is that obtained by inserting the frames at the recovered poses. Each pose is the registration of the frame against the active part of the map, composed onto the previous pose, so that results for a prefix of a sequence, for one batch element alone, or by stepping equal those of the full run, and the poses given for later frames are ignored. A camera that does not move is recovered as not moving, a small motion in front of well-constrained geometry is recovered up to the registration's accuracy, and a common rigid motion of the starting pose carries over to all poses.",
 ["histories","inputs","configurations"],"All sequences of overlapping views of well-constrained surfaces with small inter-frame motion, both registration methods, both pipelines, any starting pose, downsampling ratio and batch size.",
 "No SLAM module is imported by the runnable tests; drift or swapped composition order only shows with non-identity starting poses and more than two frames.",
 [IS,PF,IU,FU],[("localisation against the map","ICPSLAM._localize"),("downsampling of map and frame","downsample_pointclouds, downsample_rgbdimages")],["recovered poses and map"])
prop("C16","Gradients flow correctly from maps and poses back to the sensor inputs",
 "Reverse-mode gradients of vertex and normal maps, fused or aggregated map points, colors and recovered poses with respect to depth, color, intrinsics and given poses equal the true derivatives wherever the computation is differentiable, and are finite everywhere, including at pixels with missing depth. Differentiable registration and whole SLAM runs give nonzero gradients to every input that influences the result, and pixels with missing depth receive none. The same holds step by step for every public operation that takes tensors to tensors (geometry, cameras, registration, containers and their conversions). Detached copies carry no gradient.",
 ["inputs","configurations"],"All small frames and clouds away from association boundaries, both pipelines, all odometry methods that are differentiable.",
 "Finite-difference agreement over arbitrary inputs is the selling point of the library and the gradient tests upstream are commented out or not importable.",
 [RI,FU,IU,IS,SE],[("autograd through all steps","whole package")],[".grad of leaf tensors versus numerical differences"])
prop("C17","Downsampling keeps exactly the grid-aligned active points and pixels",
 "Downsampling a frame by a ratio keeps exactly the valid pixels whose row and column are multiples of the ratio, with their global points, normals and colors in image order. Downsampling a map keeps exactly the listed active points whose pixel row and column are multiples of the ratio, with their normals and colors, per batch element, and drops all others. Ratio one keeps every valid pixel and every listed point.",
 ["inputs","configurations"],"All frames, hole patterns, maps, active-point tables and ratios (including ratios larger than the image), batches with nothing to keep in some element.",
 NOIMP,[IU],[("strided masks","downsample_rgbdimages"),("table filtering","downsample_pointclouds")],["returned clouds"])
prop("C18","TUM sequences: frames, timestamps and poses stay associated for every window",
 "For any TUM-format directory every item delivers color, depth and pose that belong together: color and depth are those of one association, each color used at most once, within the allowed time difference, and the pose is the trajectory entry associated with it. Items are exactly the windows of the requested length, dilation and stride inside the requested frame range, in order, and item count, lengths, names and timestamps agree. Poses are rigid and relative to the first frame of the window, transforms chain to the poses, intrinsics and images are scaled and normalised consistently with the requested size and layout, what a caller does to a delivered item never shows in another, and unreadable or invalid requests are rejected.",
 ["inputs","configurations"],"All directory contents with jittered, missing or unsorted timestamps and invalid trajectory lines, and all combinations of length, dilation, stride, start, end, size, layout and requested outputs.",
 "All dataset tests are skipped because no dataset is in the repository; upstream they try one sequence with a few windows.",
 [TU,TT,DU],[("greedy timestamp matching","associate, TUM._findAssociations"),("windowing","TUM.__init__"),("pose parsing","TUM._homogenPoses, pointquaternion_to_homogeneous, transform44, read_trajectory")],["items of the dataset"])
prop("C19","ICL sequences: frames and poses stay associated for every window",
 "For any ICL-format directory every item delivers color, depth and pose of the same frame indices: the window of the requested length, dilation and stride inside the requested frame range, in order, for every listed trajectory. Item count, lengths, names and transforms agree with that, poses are those of the trajectory file relative to the first frame of the window, and transforms chain to the poses. Intrinsics and images are scaled and normalised consistently with the requested size and layout, what a caller does to a delivered item never shows in another, and invalid requests are rejected.",
 ["inputs","configurations"],"All trajectory sets and combinations of length, dilation, stride, start, end, size, layout and requested outputs.",
 "All dataset tests are skipped because no dataset is in the repository.",[ICL,DU],[("windowing","ICL.__init__"),("pose lookup by line number","ICL._loadPoses")],["items of the dataset"])
prop("C20","ScanNet sequences deliver matching frames, poses and correctly coded labels",
 "For any ScanNet-format directory and sequence list every item delivers color, depth, pose and label of the frames the sequence list names, all of them and in order (or from the requested start to the requested end), whatever the lengths of the other sequences. Poses are relative to the first delivered frame, transforms chain to the poses, intrinsics and images are scaled and normalised consistently with the requested size and layout. Labels are remapped class by class as documented for the chosen class set, keeping image shape and resized without inventing classes; what a caller does to a delivered item never shows in another.",
 ["inputs","configurations"],"All scene and sequence sets, lengths, start/end, size, layout, class-set and output-selection combinations and label images.",
 "All dataset tests are skipped because no dataset is in the repository.",[SC,DU],[("metafile parsing and slicing","Scannet.__init__"),("label remapping","nyu40_to_scannet20, get_color_encoding")],["items of the dataset"])
prop("C21","Image, intrinsics and pose helpers obey their scaling and conversion laws",
 "Normalising images divides by 255 for both array kinds, moving channels first is the exact axis permutation, and scaling intrinsics makes the scaled matrix (of a pinhole camera without skew) project every point to the scaled pixel, multiplicatively over successive scalings. Converting position-quaternion poses gives the rigid transform of the normalised quaternion with the given position, consecutive transforms chained from the first pose reproduce the poses, and label images color every pixel with its class color. None of these modifies its input, and array and tensor inputs give the same numbers.",
 ["inputs"],"All image shapes with leading dimensions, intrinsics (3x3 and 4x4, batched), ratios, quaternions of any nonzero scale, pose sequences, palettes.",
 "Tests compare a few fixed arrays; non-modification and composition laws are not tested.",[DU],[("helper functions","normalize_image, channels_first, scale_intrinsics, pointquaternion_to_homogeneous, poses_to_transforms, create_label_image")],["return values and inputs afterwards"])
prop("C22","Configuration merging overrides exactly the named keys and never retypes them",
 "Merging a file, another configuration or a key list into a configuration changes exactly the named keys to the given values (a string that reads as a Python literal stands for that literal), at every nesting depth, and leaves all others as they were. A value of an incompatible type, an unknown key where new keys are not allowed, and a renamed key are refused, deprecated keys are ignored, and list/tuple values keep the original's kind. Later changes to the source never show in the merged configuration.",
 ["inputs","histories"],"All nested configurations and overrides of every supported value type, key lists and files, with any deprecated/renamed registrations and new-key permissions.",
 "Tests use one sample configuration and a few overrides.",[CF],[("recursive merge with type check","CfgNode.merge_from_*, _merge_a_into_b, _check_and_coerce_cfg_value_type")],["configuration contents, exceptions"])
prop("C23","Configurations survive dump and load, clone independently, and respect freezing",
 "Dumping a configuration and loading the text again, from a string or a file, gives an equal configuration for every supported value (tuples read back as lists). A clone equals its source and shares no changes with it at any depth, attribute and key access see the same values. While frozen, assignments by attribute at any depth are refused and change nothing, and defrosting restores writability at every depth.",
 ["inputs","histories"],"All nested configurations of supported values (booleans, integers, floats, strings of any text, lists, tuples, null) and sequences of freeze, defrost, clone and assignment.",
 "Tests use one sample configuration.",[CF],[("yaml dump and decode","CfgNode.dump, load_cfg, _decode_cfg_value"),("immutability flag","CfgNode._immutable")],["configuration contents, exceptions"])
prop("C24","Visual exports show exactly the data they are given",
 "Exporting a point cloud for display yields that cloud's points with their own colors (scaled to the display range) and normals, all of them in order unless a maximum is given, and then exactly that many distinct points each with its own color. Exporting an RGB-D sequence yields one frame per time step showing that step's color and depth images of the selected batch element, whatever the channel layout. Exporting changes nothing in the source.",
 ["inputs","configurations"],"All batches, indices, maximum sizes, color ranges, attribute subsets and layouts.",
 "Only one fixed figure is built by the tests; the point cloud export is not importable in them.",[PC,RI,ST],[("conversion","Pointclouds.open3d, Pointclouds.plotly, RGBDImages.plotly, numpy_to_plotly_image, img_to_b64str")],["returned figure objects"])
prop("C25","Malformed inputs are refused with a clear error and change nothing",
 "Constructing or assigning with the wrong type, rank, channel count, point count, batch size or mismatched shapes, and calling registration, association, fusion or SLAM entry points with such arguments, raises a type, value or index error. An object on which a refused operation was attempted is exactly as it was before. Well-formed inputs of every documented kind are accepted.",
 ["inputs"],"All single departures from a documented argument type or shape of the public structures, odometry and SLAM entry points.",
 "Tests try a handful of wrong shapes; state preservation after a refusal is not tested, and most of these modules are not imported.",
 [PC,RI,IU,FU,IS,PF,GU,PJ],[("argument checks","constructors, setters and entry points")],["exception type; object contents afterwards"])
prop("C26","Ragged lists and padded tensors convert into each other without loss",
 "Padding a list of matrices of different sizes (empty ones included) gives a tensor of the requested size, or of the largest rows and columns among the non-empty ones, that holds every matrix at its place with its own values and number type, and the fill value everywhere else. Splitting a padded tensor by row counts, by pairs of row and column counts or by a mixture gives back exactly those parts, so padding and then splitting restores the list. Gradients reach exactly the entries used, the inputs stay as they were, and sizes that cannot hold a matrix or do not fit the tensor are refused.",
 ["inputs"],"All lists of matrices of any sizes, number types and memory layouts, target sizes, fill values, and split sizes.",
 "The helpers are only called by the tests to build expected values; they have no tests of their own.",[ST],[("fill and copy","list_to_padded"),("slicing","padded_to_list")],["returned tensors and lists, inputs afterwards"])
prop("C27","A dataset read through the loader into SLAM gives the recorded trajectory and scene",
 "For any TUM, ICL or ScanNet directory, batches of windows from a standard data loader are valid input for RGB-D frames as delivered, and running SLAM on them with known poses returns the recorded trajectory relative to each window's first frame and a map that is, point by point and color by color, the recorded depth images back-projected through the recorded camera at those poses. That holds for every layout, color normalisation, image size, batch size and order of delivery. With registration odometry the result is the one that the recorded images give when passed as arrays.",
 ["inputs","configurations"],"All directories of the three formats, window settings, sizes, layouts, batch sizes and both SLAM pipelines.",
 "No dataset is in the repository, so the path from files to maps never runs in the tests; conventions (units, axis signs, intrinsics scaling, pose direction) only meet end to end.",
 [TU,ICL,SC,DU,RI,IS,PF],[("items","TUM/ICL/Scannet.__getitem__"),("frames","RGBDImages maps"),("pipeline","ICPSLAM.forward, PointFusion.forward")],["SLAM poses and map"])
prop("C28","Results depend only on the values passed, and nothing is carried over",
 "Calling any public operation on clouds, frames, registration, association, fusion, SLAM or geometry twice with equal arguments gives equal results, whatever was called in between, whichever views of the arguments were read before, whatever the state of the random number generators and with gradient recording on or off; tensors with equal values in another memory layout give the same result up to rounding. A call leaves its arguments unchanged, apart from the object an in-place form works on, and leaves the random number generators, the default number type and the gradient mode alone. Odometry providers and SLAM objects carry nothing over from one sequence to another, even when several sequences are stepped in turns through the same object.",
 ["histories","inputs"],"All public operations with all valid arguments, all sequences of other calls (accepted or refused) in between, all orders and interleavings of sequences given to one provider or SLAM object.",
 "Each test builds its objects anew and calls once; kept state, shared buffers and results handed out twice need a second call with something in between.",
 [PC,RI,PJ,GU,SE,IU,IC,GI,GT,FU,IS,PF,SU,ST,DU],[("stateless modules","ICPSLAM.step, PointFusion._map, ICPOdometryProvider.provide, GradICPOdometryProvider.provide"),("derived data computed from the arguments","fusionutils, icputils, projutils, geometryutils")],["return values, arguments and global state before and after"])
prop("C29","Everything works, and gives the same results, on whatever device the tensors are",
 "Any public operation on clouds, frames, registration, association, fusion, SLAM, downsampling or geometry whose arguments are all on one device, processor or graphics card of any index, succeeds there, gives all its results on that device, and gives the same numbers as on the processor. Pointclouds and RGBDImages moved with to(), cpu() or cuda() are, with every view and whatever was read or cached before, wholly on the device asked for and equal to the original; the original is left as and where it was and shares nothing with the result; a move to where an object already is gives the object itself unless a copy is asked for; a card named without an index is the same as with its index; gradients flow back through a move. Constructors put everything on the device asked for (clouds: otherwise that of the points; frames refuse tensors of several devices), and a SLAM object works on its own device and leaves the frames given to it where they were. Clouds of different devices are not appended to one another (ValueError), and an operation refused because its arguments are on different devices leaves them all unchanged.",
 ["inputs","histories"],"All public operations with all valid arguments on any device; all histories of moves, reads and changes of clouds and frames; all placements of the arguments of an operation on two devices.",
 "The tests run on the processor only: a table, mask or identity created there, or a tensor left behind by a move, cannot show.",
 [PC,RI,PJ,GU,SE,IU,IC,GI,GT,FU,IS,PF,SU,DU],[("moving","Pointclouds.to/cpu/cuda, RGBDImages.to/cpu/cuda"),("tensors created on the way","fusionutils, icputils, projutils, geometryutils, RGBDImages maps"),("runs on a device","ICPSLAM.__init__ and forward")],["devices and values of results, of moved objects and of their originals"])
prop("C30","Valid input, however degenerate, gives finite and well-formed results",
 "Frames that are blank or have depth at a single pixel, row, column or checkerboard only, that are flat, stepped, negative, minute, huge or of very mixed depth, poses that repeat, creep or are far away, clouds that are empty, single, coincident, collinear, coplanar or out of reach, normals of length zero, rotations by nothing or by half a turn, points in or behind the camera plane: all are processed without error and without NaN or infinity. Maps are zero exactly where there is no depth and normals are never longer than 1; clouds and maps have one normal, color and confidence per point, the number of points that the pixels with depth account for, and confidences that are finite and not negative; correspondences name existing points and pixels, each at most once where one-to-one; registrations and SLAM poses are rigid; where nothing can be registered (a cloud without points, nothing within the threshold, normals of zero) the motion is the initial one, so the frame keeps the last pose, and blank frames add nothing to the map. Gradients of the maps, of clouds and fused maps under given poses, of exponential maps, of quaternion conversions, of projections and of homogeneous coordinates, also at infinity, and of relative poses are finite there too. In batches this holds for each element whatever the others are. Only a registration with damping so small that its normal equations are singular in the working precision may be refused.",
 ["inputs","histories"],"All sequences of ordinary and degenerate frames, both SLAM pipelines with all odometries; all pairs of ordinary and degenerate clouds, singly and batched, for both registrations; all maps for association and fusion; all arguments at which a formula divides by zero or takes the root of zero.",
 "Sensors deliver holes, blank frames and still cameras all the time, but the tests use a few good frames; one NaN spreads through the whole map or the whole batch.",
 [RI,PC,PJ,GU,SE,IU,IC,GI,FU,IS,PF,SU],[("division by lengths and depths","RGBDImages normal maps, project_points, unhomogenize_points, quaternions, exponential maps"),("empty selections","find_active_map_points, fuse_with_map, downsample_*, point_to_plane_*"),("fusion weights","fusionutils.get_alpha, fuse_with_map")],["all attributes of maps and clouds, poses, correspondence tables, gradients"])
prop("C31","Arguments mean the same by name, by position or left out, with the documented defaults",
 "Every public function, constructor, odometry provider, pipeline, step and structure method can be called with its documented parameters by name in any order, by position in the documented order, or, where a default is documented, without them; all of these give the same results bit for bit as the call that names every argument and writes the documented default out: registration iterations 20, damping 1e-8, no distance threshold, gradLM controls 2, 1, 1 and 200; pipelines with gradicp and downsampling 4; fusion distance 0.05, angle 20 degrees, sigma 0.6; confidence floor 1e-7; homogeneous epsilon 1e-6, quaternion epsilon 1e-12; clouds in global coordinates without missing depths; transforms that multiply from the left; new objects rather than changes in place; figures with their documented point size, frame time, image quality and limits; configurations that take no new keys.",
 ["inputs"],"All of about 65 public entry points; all splits of their arguments into positional, named in any order and omitted, with each optional argument at its documented default or at another value, on data for which the value makes a difference.",
 "Most tests call each function in one way, and the pipelines hand settings down by position through three layers; a default or an order that moves in one of them changes results silently.",
 [GU,PJ,DU,TT,PC,RI,SU,IU,IC,GI,FU,IS,PF,CF],[("signatures","all public functions and constructors"),("forwarding","ICPSLAM and PointFusion -> odometry providers -> point_to_plane_*")],["return values, objects changed in place, figures, error types"])
prop("C32","The elements of a batch are processed each on its own",
 "For every batched operation (frame maps, clouds made of frames, cloud arithmetic, motion, projection and appending, padding, geometric formulas, downsampling, association, fusion, registration, ground-truth motion, whole SLAM pipelines and single steps) the result for one element is the one it gets in a batch of its own: it depends neither on its place in the batch nor on how many other elements there are, nor on their data, sizes, magnitudes, cameras or poses, nor on what they happen to share with it, nor on whether they are blank or have nothing to register or to match. Equal elements get equal results. The gradient of an element's results is zero for all inputs of the other elements, and for its own inputs it is the same as alone.",
 ["inputs"],"All batches of 1 to 4 elements with sizes, magnitudes and contents of their own, some of them blank, some sharing any of their inputs; all orders, subsets, repetitions and replacements of elements.",
 "Batches are what the library adds to classical SLAM, but the tests mostly use equal elements or one; a shortcut taken for the first element, a maximum over the whole batch or an index without its batch number shows only between unequal elements.",
 [GU,PJ,PC,RI,SU,IU,IC,GI,FU,IS,PF,"gradslam/odometry/groundtruth.py","gradslam/structures/structutils.py"],[("loops over the batch","odometry providers, downsample_*, fuse_with_map"),("tables with batch numbers","find_* in fusionutils"),("padding","Pointclouds, list_to_padded")],["results per element, gradients per element"])
prop("C33","Another world frame, unit of length, coloring, image orientation or order of points changes results accordingly and no further",
 "Results follow the conventions the input is expressed in and depend on nothing else about them. With all lengths (depths, poses, maps, distance thresholds, fusion scale) in another unit, vertex maps, clouds, maps and motions are the same in that unit, normals, masks and correspondences the same. With the world turned, everything in world coordinates turns with it and everything in camera coordinates and every decision stays; registration finds the same motion expressed in the turned frame. Colors guide no geometric decision: with other colors (channels exchanged, scaled, black, all equal) poses, correspondences, points, normals and confidences are the same and map colors are the changed ones. The order in which map points or registered points are listed only reorders the results. A mirrored camera axis, a transposed image and margins of missing pixels around an image, each with the camera matrix that belongs to it, give the same points and directions; cropping gives those of the remaining pixels.",
 ["inputs"],"All frames and maps; all powers of two as units, all quarter turns of the world (any rotation for registration), several recolorings, all orders of points, mirrored, transposed, framed and cropped images.",
 "Tests use one unit, one world frame and one image orientation, so a constant in metres, a world axis taken for a camera axis or a color taken for a mask goes unnoticed.",
 [GU,PJ,PC,RI,SU,IU,IC,GI,FU,IS,PF,"gradslam/odometry/groundtruth.py"],[("vertex and normal maps","RGBDImages._compute_*"),("association thresholds","find_* in fusionutils"),("weights","get_alpha, fuse_with_map"),("registration","gauss_newton_solve, point_to_plane_*")],["points, normals, colors, confidences, correspondence tables, poses"])
prop("C34","Copies, stored objects, worker processes and threads behave like the original used alone",
 "Point clouds, RGB-D frames, odometry providers, SLAM objects and datasets can be copied (copy.deepcopy), pickled in any protocol and saved and loaded with torch at any moment of their life, also in the middle of a sequence: the duplicate equals the original in everything observable, goes on as the original would, and shares nothing with it. What applies to every torch module (train and eval, conversion, state_dict, being inside another module, no_grad and inference mode) leaves the results, the settings and the in-place rule of a SLAM object as they are. A loader with any number of worker processes delivers the windows and batches that reading in one process delivers, in the order asked for. Operations, SLAM objects, odometry providers and dataset readers used from several threads at once give each the result it gives alone, and leave global state (working directory, random generators, gradient mode) as it was.",
 ["inputs","schedules"],"All objects after any history and all ways to duplicate them; all interleavings of two or three threads at line granularity of the library's code, over about 90 operations, pipelines, registrations and readers.",
 "Tests run everything once, in one thread and one process; an object that keeps an open file, a scratch value on a class or a reference back to its original works there.",
 [PC,RI,SU,IU,IC,GI,FU,IS,PF,GU,PJ,DU,"gradslam/datasets/tum.py","gradslam/datasets/icl.py","gradslam/datasets/scannet.py","gradslam/odometry/groundtruth.py"],[("state kept by objects","constructors"),("state kept outside objects","module and class level")],["contents of duplicates, windows from workers, results in threads, settings, global state"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
