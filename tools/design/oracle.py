import json
O={}
def o(i,oracle,bounds): O[i]=dict(oracle=oracle,bounds=bounds)
o('C01',"A list-of-clouds model in numpy that executes the same history by the per-point definitions; every list view, padded view, mask, count, flag and width is compared with it, in a drawn reading order, for the object and every object its copying operations left behind.","1-3 clouds of 0-5 points (batch sizes to 4 by appending), 3-14 operations, float32 and float64; also up to 60 operations, clouds of up to 5000 points and batches of up to 40 clouds. Division by zero and non-finite values are left out.")
o('C02',"The per-point formula in float64 numpy for each operation and operand form, in-place against out-of-place, operand unchanged, and transform followed by its inverse.","1-3 clouds of 0-5 points, and up to 5000 points or 40 clouds; tolerances scale with the magnitude of the operands.")
o('C03',"A list model plus aliasing by actual later writes: both sides are written through every view and every in-place operation and the other side must keep its snapshot.","1-3 clouds of 0-5 points, and up to 5000 points or 40 clouds, all attribute subsets, every index form the documentation names.")
o('C04',"Float64 back-projection and cross-product normals written from the definition, pixel by pixel; metamorphic: projecting the object's own vertices gives their pixel, batch elements are independent, the two layouts agree.","Images up to 6 x 7, and up to 130 x 130 or 12 x 12 frames, focal lengths of either sign, principal point inside or outside the image, scenes 0.1 mm - 200 m. A normal is judged where the surface differences are well conditioned.")
o('C05',"A model that keeps only colors, depths, intrinsics and poses and recomputes every map from scratch at each comparison, so a stale cache is a difference; pixel positions may be given.","Histories of up to 8 (some 40) operations over a growing set of objects; images as in C04.")
o('C06',"Direct selection of the valid pixels of the reference maps in row-major order; colors exactly, points and normals within rounding.","Images up to 6 x 7, 1-3 elements, and up to 130 x 130 or 12 elements.")
o('C07',"Pinhole equations in float64, round trips in both directions, finite values on the camera plane.","Zero-skew intrinsics for inverses, general 3x4 / 4x4 projections for projection; depths away from zero except in the camera plane test.")
o('C08',"scipy matrix exponential in float64, numpy matrix products and inverses, the quaternion formula; group laws (associativity, inverse, neutral element, conjugation) on the library's own results.","Angles 0 and 1e-9..100; float32 tolerances follow the conditioning of the closed forms (translation 4e-4 for tiny angles).")
o('C09',"Brute-force nearest neighbours and the point-to-plane rows in float64; the rows are also compared with a numerical derivative of the residual; numpy least squares with damping.","Clouds up to 30 / 40 points, some up to 1500 / 3000, without ambiguous neighbours.")
o('C10',"The documented Levenberg-Marquardt / gradLM iteration reimplemented in float64, judged only while it stays clear of its own branch boundaries; error never increases, recovery of the true motion, conjugation by the initial transform, rigidity always.","8-60 points, 1-20 iterations; clouds up to metres apart with B, B2 large enough to saturate.")
o('C11',"numpy relative pose for the ground-truth provider; for the registration providers the same call on each element alone, and the separately judged C10 functions.","1-4 elements, small clouds.")
o('C12',"Brute-force association written per point in float64; points within rounding of a border, threshold or tie are not judged.","Images up to 6 x 7, some 40 x 40 with maps of 400 points or 12 elements; one constructed case with point numbers above 2**24.")
o('C13',"Confidence-weighted average per map point in float64, appended pixels in row-major order, all other map points bitwise unchanged.","Maps of up to tens of points, sequences of up to 4 frames; some frames of 40 x 40, maps of 1500 points, 12 elements.")
o('C14',"Aggregation: concatenation of the reference clouds. Fusion: step by step with the C12/C13 models. Metamorphic: whole run == steps == one element at a time == other layout; moving all poses moves the map.","1-4 frames, 1-3 elements; some sequences of up to 16 frames, frames of up to 40 x 40, 12 elements.")
o('C15',"Poses recomposed from separately judged steps; a float64 registration from the raw images; the true motion of the rendered scene; causality by cutting or altering later frames; element independence.","8x10 to 14x18 pixel views of a box corner or ellipsoid that constrain all six degrees of freedom (singular value ratio at most 80 on the grid that is used).")
o('C16',"Directional central differences of the independent float64 models with associations held fixed, against reverse mode; gradients are finite everywhere. A table of some 57 public steps from tensors to tensors (`every_step`) is differentiated by reverse mode against differences of the code itself.","Small frames; cases near a kink only tested for finiteness.")
o('C17',"Direct selection of grid rows and pixels.","Ratios 1-8, images up to 6 x 7, some up to 130 x 130; tables of up to 2000 rows.")
o('C18',"A reference association in integer microseconds, window arithmetic from the documentation, decoded pictures by content, float64 poses; the files are written by the check, the reference never reads them back with the library.","1-3 sequences of up to 14 entries in a scratch directory.")
o('C19',"Window arithmetic over the numbered frames, trajectory rows by frame number (trajectory 0 starts at frame 1 as published).","1-3 trajectories of up to 14 frames.")
o('C20',"Listed frames and poses, decoded images, the published 20-class and NYU40 tables.","1-4 lists over 1-3 scenes, up to 8 frames.")
o('C21',"The numpy definition, array result == tensor result, input unchanged.","Small arrays.")
o('C22',"A reference merge of plain dicts with types, deprecations and renames.","Trees of depth up to 3, 6 overrides.")
o('C23',"Structural equality after load, plain-dict copies and a frozen flag per node.","Trees of depth up to 3.")
o('C24',"The arrays inside the exported figures; JPEG pictures are decoded and compared by block colors; the animation's structure.","open3d containers are a stand-in that holds arrays. Clouds of up to 5000 points, and around the default maximum of 200000.")
o('C25',"A validity model per entry point: a named departure must raise TypeError, ValueError or IndexError, and all arguments and the receiver must equal an untouched twin; without departure the call must return.","Departures of type, rank, size, batch, container, missing attribute; one at a time.")
o('C26',"numpy padding and slicing; the round trip; gradient of a random weighting equals the weights.","Up to 6 matrices of up to 5 x 4, some of 1500 rows, some lists of 40.")
o('C27',"Everything is computed from the numbers that were written to the files: images, scaled intrinsics, trajectory relative to each window's first frame, back-projection; registration results equal those of the same images passed as arrays.","Windows of up to 3 frames, images up to 13 x 16 before resizing.")
o('C28',"The plain call of the same operation on fresh arguments, in the same process: bit for bit after other calls, refused calls, overwritten results, read views, another generator state or gradient mode, and in a new process in which nothing else has run; within rounding for other memory layouts. Arguments against an untouched twin. A SLAM object or provider shared by several sequences against one of its own for each.","Every entry point of C25 and every other public function of geometry, structures and datautils; arguments of a few elements; 2-3 sequences of 1-3 frames in any order of turns.")
o('C29',"The same operation on the processor, bit for bit, and the oracles of C01-C17, C21 and C26 themselves, played with all tensors on a card; every tensor of every result and view must be on that card. For moves: the numpy model of the batch, for the result and for the original after the other was changed. For two devices: a snapshot of the arguments. This machine has no graphics card: `devs.py` simulates two of them (below).","Every entry point of C25/C28, every test of C01-C17, C21, C26 (but the large and long ones); tours of up to 4 moves among cpu, cuda, cuda:0, cuda:1 by name, device or method.")
o('C30',"Invariants: everything finite; zero exactly off the depth mask; normals of length at most 1; equal attribute lengths; point counts from the depth mask (exact for clouds, aggregation and downsampling, bounds for fusion); correspondence tables with existing, distinct entries nested in one another; rigid poses; the initial motion, exactly, where nothing can be registered; finite gradients. A refusal by torch's solver is accepted only for damping below float32 precision.","13 kinds of frames, 11 kinds of clouds, 4 of normals, motions 0 to 1000; up to 3 elements x 4 frames of up to 6 x 7 pixels, clouds of up to 8 points.")
o('C31',"Differential: a table of the documented parameters, in order, with their defaults gives the reference call, in which everything is named and written out; the call under test names, reorders, passes by position or omits. Bit-for-bit equality of results (and of what is changed in place), or the same type of error. The inputs are made so that each default matters (near-singular systems, points at the thresholds, divisions at the epsilons).","About 65 entry points, 9000 cases; inputs of a few points or pixels, pipelines on frames of up to 11 x 10. Dataset constructors are left to C18-C20, whose models cover their defaults.")
o('C32',"Metamorphic: the batch in another order and with the other elements replaced (bit for bit where all shapes agree), with elements left out and repeated, and each element alone (within rounding; where they differ by more, the element alone is recomputed with inputs moved by about a rounding error, and a difference of that size, or a decision that flips there too, is accepted). Gradients by autograd: zero for other elements, as alone for its own.","16 batched operations with 60 variants each; 2 to 4 elements, each with its own seed, size 0 to 6, magnitude 1e-3 to 50, and any of its inputs shared with others; 6000 + 2500 cases.")
o('C33',"Metamorphic: the operation on changed input against the changed result of the operation. Powers of two, quarter turns and quarter-turned cameras are exact in floating point, so frames, tables and maps are compared bit for bit; registration, general inverses and other pixel orders within rounding. Registration cases in which two closest points are nearly tied are rejected.","7 tests: frames and clouds, association and fusion, ground-truth SLAM, SLAM by registration (recoloring), registration, its linear system, image orientation; 2500 + 3500 + 900 + 500 + 700 + 2500 + 2500 cases.")
o('C34',"Models of C01 and C05 for duplicated clouds and frames of which the other one was changed; otherwise differential, bit for bit: the original run, the direct read of the dataset, the same jobs one after the other. Thread schedules are drawn and replayed exactly: a trace function stops every thread at each line of gradslam's code and hands over to another one at drawn lines (a thread that waits for a lock held by a stopped one lets it go on after half a second).","11 tests; about 90 operations with duplicated arguments and 2 to 3 at a time in threads, switch every 1 to 40 lines or once at a drawn line until the others have ended; SLAM objects under 18 treatments, each also as a fixed example with every odometry and map update; 1 to 3 forked workers; about 13000 cases.")
