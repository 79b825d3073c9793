NA = {}
COMMON = " Every case is run; failures are replayed in a fresh process before they are reported. Bounds: the finite alphabets listed in DESIGN.md; outside them nothing is claimed. Trusted: gcc, the solver/vision libraries as installed, the harness' own reference geometry."
n("C01", EX, "All combinations of mount kind x sensor x pose alphabet x guess x feature split x order within the alphabets, checked against the known truth." + COMMON)
n("C02", EX, "All camera/image visibility patterns that keep the problem determined (<=3 cameras, <=4 images), permutations, fixed flags and guesses, checked against the known truth." + COMMON)
n("C03", EX, "All combinations of pose, intrinsics, point set, guess and camera subset within the alphabets, checked against the known truth." + COMMON)
n("C07", EX, "Cross product of rotation axes/angles (incl. 0, tiny, pi), translations, points (incl. zero depth) through every conversion and projection entry point, in double and dual numbers." + COMMON)
n("C04", EX, "All combinations of camera x distortion x view count x target x guess x image order, with built-in and given pose guesses, and an unusable image at every position, checked against the known truth." + COMMON)
n("C05", EX, "For every calibration kind every single scalar measurement displaced alone plus jittered data sets; costs compared with reference residuals, results checked for stationarity by numeric differentiation of the reference residuals." + COMMON)
n("C06", EX, "All small least-squares problems (block sizes, block subsets and orders, masks, memory layouts, entry points) against the analytic inverse normal matrix; all label/block errors; attached reports against numerically differentiated reference residuals." + COMMON)
n("C08", EX, "All joint-type sequences up to four joints x parameter alphabets x value types x offset tables x partial chains, compared with the written-out link product; every inadmissible size." + COMMON)
n("C09", EX, "All ordered pairs over alphabets of values that differ in exactly one field, count or order, for every data type with an equality." + COMMON)
n("C10", EX, "All values of the alphabets, all container sizes up to five, three text forms; every single structural fault of every document shape at every depth." + COMMON)
n("C11", EX, "All grid shapes x strides x cameras x views x single displacements; all samples (and orders) of small point sets; all random-sampler sizes over a range of seeds; compared with an extended-precision least-squares homography." + COMMON)
n("C12", EX, "All sequences of up to four poses from pose families x 2D/3D x noise, all quaternion sequences x sign patterns, failing estimates at every position; compared with written-out statistics." + COMMON)
n("C13", EX, "All target shapes x views x intrinsics x guesses x displacements, all displacement sequences over data sets and mounts, thresholds around the true residual, all size patterns." + COMMON)
n("C14", EX, "All plane/line direction pairs x thresholds, all camera poses x image grids, all mounts x displaced features x observation sequences; compared with extended-precision ray casting." + COMMON)
n("C15", EX, "All subsets of twelve directions x circles x guesses, all orders of small subsets, perturbed sets with shift/rotation/order invariance and stationarity." + COMMON)
n("C16", EX, "All combinations of free/fixed frame blocks, all partial masks of every block, all single DH entries/rows/columns (pairs for small chains) x prior x chain pairs x measurement kinds that leave the problem determined, against truth, reference costs, labels and inverse normal matrix; all wrong joint counts, mask indices and prior shapes." + COMMON)
n("C17", EX, "All shapes x sizes x numberings of the three targets, all subsets of observed features of small grids (all singles and all-but-ones of larger ones), every foreign, missing and surplus feature; every configuration with one field changed, deleted or ill-typed, as text and as parameter tree (ROS headers replaced by stand-ins)." + COMMON)
n("C18", EX, "All shapes x in-plane rotations x the eight listings of the grid, all pairs of ten kinds of answers of the two detection attempts x position of the fault (the vision library's grid detection is replaced by a scripted one), all shapes x rotations x tilts and hidden dots with the real detection, on rendered images with known dots." + COMMON)
n("C19", EX, "All radii x sub-pixel positions x colours, all subsets of nine slots, all shapes x filter settings and pairs of them, all grey levels x threshold settings x repeatabilities, all concentric levels x grouping tolerances, every 4x4 binary pattern (thorough 4x5) at every corner of an image whose buffers end at inaccessible pages, discs cut by the border at every position." + COMMON)
n("C20", EX, "All subsets of hidden markers x rotations x tilts of small marker and chessboard-marker grids, all numberings x dictionaries x watched numberings, foreign markers, a patch at every place of the board, all drawn feature subsets; rendered from the dictionary's bit patterns with known geometry." + COMMON)
n("C23", EX, "The real save code runs in a forked process that is stopped at every file operation with every torn part, over every size of an earlier set; every single write fault; all histories of saves, refused saves, lost, broken and truncated files of depth 4 (5); all entry states of hand-written sets up to three entries; every truncation of every file; all found patterns of up to 3 cameras x 4 images; all single faults of stored poses and intrinsics. ROS headers replaced by stand-ins." + COMMON)
n("C24", EX, "Each tool of rct_examples is built as its own program from the working tree (ROS headers replaced by stand-ins that supply parameters, echo the log and record shown images) and run on rendered data sets over all patterns of usable, blank, partial and unreadable images, cameras x images visibility, target kinds and every missing parameter or file; its output is compared with the library's answer for exactly the usable images." + COMMON)
n("C25", "explicit exploration of all event histories up to a depth on the real node, against a reference state machine", "The node's own main function runs with stand-ins for the middleware headers; the harness plays all histories over 19 events up to depth 3 (4) with and without collected pairs, 8 events up to depth 5 (6), 4 events up to depth 6 (8), each closed by collecting and saving, and every incomplete start. A reference state (last readable image, pose, collected pairs, disk) predicts every service result, shown image and saved data set. Callbacks run one at a time, as ros::spin does." + COMMON)
n("C21", "explicit exploration of the tree of call histories on the real code: a process is forked per history, and the result of every call is compared with that of the same call in a fresh process", "All ordered pairs of ~200 calls (some 45 kinds of operation with changed, smaller, refused and re-ordered data) on shared objects, deeper histories of calls of the same kind (thorough: triples, depth 4)." + COMMON)
n("C22", "stateless exploration of the real code under a controlled scheduler: the accesses of both calls are recorded, and every preemption at a conflicting access is executed (bound 1, bound 2 near the start); calls without a conflicting access have one interleaving up to equivalence", "All pairs of operations on separate objects, and on the same objects where the operations only read them, fresh and after an earlier call; all pairs of cost terms within one problem; concurrent draws of random joint values. The results of every schedule are compared with those of the calls made one after the other. Plain accesses of the repository's code are observed by compiler instrumentation, writes of library code by comparing memory." + COMMON)
n("C26", EX, "The generator script of the working tree is run by python3 with a stand-in for its drawing library that lists what is drawn: all target kinds x grid sizes x spacings x dot sizes x inversion x options on the command line, every word over eleven operations on its functions up to depth 4 (5) against a reference, colours compared at a lattice of places and around every outline, and all shapes x rotations x scales through the real circle-grid finder." + COMMON)
n("C27", EX, "The program is built from the working tree (middleware headers replaced by stand-ins) and run on every subset of seven measurements, every order, guesses x noise x layouts x quaternion scales, and every fault of the file and the parameters; everything it prints is compared with the library's result (decided by C16) for a problem the harness assembles itself, and with validation statistics computed from scratch." + COMMON)
