"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json
import os

POST = "discorpy/post/postprocessing.py"
UTIL = "discorpy/util/utility.py"
PROC = "discorpy/proc/processing.py"
PREP = "discorpy/prep/preprocessing.py"
LINE = "discorpy/prep/linepattern.py"
LOSA = "discorpy/losa/loadersaver.py"

P = []


def prop(pid, title, statement, over, text, why, files, mech):
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech]},
    })


# ----------------------------------------------------------------- correction
prop("C01", "Backward unwarping reads every output pixel where the lens model points",
     "For every 2D image, centre of distortion (inside or outside the image) and list of polynomial coefficients, "
     "the corrected image has the shape and data type of the input. Each of its pixels equals the input interpolated "
     "(with the requested spline order and boundary mode) at centre + F(r)*(pixel - centre), where r is the pixel's "
     "distance to the centre, F the polynomial with those coefficients, and the point is first clamped to the image.",
     ["inputs", "configurations"],
     "All image shapes (square, wide, tall, single row/column), dtypes, contents, centres, coefficient lists of any length, orders and modes.",
     "The tests unwarp one 64x64 float image with one centre and look at a mean difference; shape asymmetry, clamping, order/mode and dtype handling are never observed.",
     [POST], [("unwarp_image_backward", POST)])

prop("C02", "Unwarping a slice or chunk of a stack equals those rows of unwarped frames",
     "For every 3D stack, correcting one slice, or an inclusive range of slices, gives frame by frame the same rows as "
     "correcting each whole frame with linear interpolation, for every stack height, position and monotonic lens model. "
     "A stop index of -1 means the last slice, and a start or stop outside the stack, or an input that is not 3D, is "
     "rejected with a ValueError rather than answered with wrong data.",
     ["inputs", "configurations"],
     "All (depth, height, width, start, stop, centre, coefficients), including stacks with more than 32767 rows.",
     "The tests check one slice and one chunk of one stack; row ranges at the border, the -1 sentinel, tall stacks and rejected ranges are untested.",
     [POST], [("unwarp_slice_backward", POST), ("unwarp_chunk_slices_backward", POST)])

prop("C03", "Forward unwarping of points applies exactly the radial polynomial",
     "For every list of lines, centre and coefficient list, each point p is moved to centre + F(|p-centre|)*(p-centre), "
     "keeping the number and order of lines and points, whatever the numeric type of the coordinates. The single-point "
     "mapping gives the same answer for the same point, in x,y order or in y,x order as requested.",
     ["inputs", "configurations"],
     "All points (integer or floating, at the centre, off axis), centres and coefficient lists of length 1..6+.",
     "Tests use one distorted grid and an averaged tolerance; integer coordinates, the centre point and per-point identity are not checked.",
     [POST, UTIL], [("unwarp_line_forward", POST), ("find_point_to_point", UTIL)])

prop("C04", "Backward unwarping of points inverts the backward lens model",
     "For every point and every backward model whose radial map is increasing over the field, the unwarped point lies on "
     "the ray from the centre through the given point, and applying the backward model to it gives the given point back "
     "to within 0.01 pixel. A point at the centre stays there, and the number and order of lines and points is kept.",
     ["inputs", "configurations"],
     "All points (any numeric type), centres and monotonic coefficient lists.",
     "Tests check a single grid with a mean error; the per-point inverse relation over models and positions is not checked.",
     [POST], [("unwarp_line_backward", POST)])

prop("C05", "Forward image unwarping sends each pixel to its forward-mapped position",
     "For every image, centre and coefficient list, the forward-unwarped image has the input's shape and type, every pixel that "
     "at least one input pixel maps to (forward model, clamped to the image and rounded) holds the value of one of those input "
     "pixels, and every other pixel is zero.",
     ["inputs", "configurations"],
     "All shapes, dtypes, centres and coefficient lists.",
     "Tests look at one 64x64 image through a mean value.",
     [POST], [("unwarp_image_forward", POST)])

prop("C06", "Colour and padded unwarping equals grey unwarping of each padded channel",
     "For every 2D or 3D image and every pad setting (none, one number, or top/bottom/left/right), the result equals, channel by "
     "channel, unwarping the padded image with the centre shifted by the left and top pads, with the requested spline order, boundary mode and "
     "pad mode; its shape is the padded shape and its type the input's. A pad setting of any other form is rejected with a ValueError.",
     ["inputs", "configurations"],
     "All shapes with 1..5 channels, dtypes, pads (asymmetric), pad modes, orders, modes, centres, coefficients.",
     "Tests use one image with two pad settings and check the shape only.",
     [UTIL, POST], [("unwarp_color_image_backward", UTIL), ("_calc_pad", UTIL)])

prop("C07", "Automatic padding keeps the whole original field of view",
     "With automatic padding and a barrel-type backward model (undistorted points lie up to about 6 percent further from the centre), every pixel on the "
     "border of the original image has its undistorted position inside the returned image to within about two pixels plus half a percent of the image size, on each "
     "side for any centre inside the image, and no side is padded by more than is needed plus the same amount. When the model moves no corner outside the image, nothing is padded.",
     ["inputs", "configurations"],
     "All image shapes, off-centre distortion centres and barrel strengths in the calibrated range.",
     "One test checks that the output is larger than the input for one model.",
     [UTIL, PROC], [("_calc_pad", UTIL), ("unwarp_color_image_backward", UTIL)])

prop("C08", "The OpenCV unwarping path computes the same image as the reference path",
     "For every grey or colour image, pad setting, centre and coefficients, the OpenCV-based unwarping returns an image of the same shape and type as the "
     "reference colour unwarping with linear interpolation, and the same pixel values up to OpenCV's fixed-point interpolation error; "
     "a requested OpenCV interpolation method or border mode is honoured.",
     ["inputs", "configurations"],
     "All shapes, channels, pads, centres, coefficients, dtypes supported by OpenCV.",
     "These functions are not tested at all.",
     [UTIL], [("unwarp_image_backward_cv2", UTIL), ("mapping_cv2", UTIL)])

prop("C09", "Video unwarping shows every frame once, in order, corrected, and then stops",
     "For every sequence of camera answers, every frame delivered by the camera until the user presses ESC is shown exactly once, in order, and equals the "
     "frame unwarped as a still image with the same settings. The call returns when ESC is pressed or when the stream ends, and it always releases "
     "the camera and closes the windows on return, also for an empty stream.",
     ["histories", "fault_sequences", "configurations"],
     "All sequences of (frame delivered / end of stream) and key presses up to a depth, all pad settings, grey and colour frames.",
     "The function has no test: it needs a scripted camera and window system and the set of all environment histories.",
     [UTIL], [("unwarp_video_cv2", UTIL)])

prop("C10", "Perspective coefficients map every source point onto its target and back",
     "For every set of four or more non-degenerate point pairs related by a projective map, the forward coefficients send each source point onto its "
     "target (and any other point of the plane as that projective map does), the backward coefficients send each target onto its source, and applying one after the other to lines gives the lines back. "
     "Line count, point count and order are kept, and a coefficient list not of length eight is rejected with a ValueError.",
     ["inputs", "configurations"],
     "All four-point configurations on a grid, more than four points, any point order, y,x convention, any homography in a range.",
     "Tests use one quadrilateral; correspondences, asymmetry between x and y and over-determined sets are not covered.",
     [PROC, POST], [("calc_perspective_coefficients", PROC), ("correct_perspective_line", POST)])

prop("C11", "Perspective image correction reads every output pixel through the backward map",
     "For every 2D image and eight backward coefficients, each output pixel (x, y) equals the input interpolated, with the requested "
     "spline order and boundary mode, at the projectively mapped position clamped to the image; a caller-supplied index map is used instead "
     "when given. Shape and data type are kept and a coefficient list not of length eight is rejected with a ValueError.",
     ["inputs", "configurations"],
     "All shapes, dtypes, homographies (including shifts, shears, scalings, strong perspective), orders, modes.",
     "One square image with one matrix is tested through a mean value.",
     [POST], [("correct_perspective_image", POST)])

prop("C12", "Four picked points define one right-angled target rectangle",
     "For every convex quadrilateral given in any point order and in y,x or x,y convention, the returned source points are those four points ordered top-left, top-right, bottom-left, bottom-right, and the "
     "targets are, in the same order, the corners of a right-angled rectangle with the same orientation. The rectangle's sides are the mean, maximum or minimum of the opposite side lengths as selected, or the mean multiplied by a floating-point scale factor, "
     "and equal to each other when equal distances are requested; any number of points other than four is rejected with a ValueError.",
     ["inputs", "configurations"],
     "All quadrilaterals with integer corners in a grid, all 24 point orders, both conventions, all scale settings, both equal-distance settings.",
     "Tests use a single quadrilateral in one order.",
     [PROC], [("generate_4_source_target_perspective_points", PROC)])

prop("C13", "Straightness residuals are the true point-to-line distances",
     "For every set of lines and any centre, the residual table holds one row per point with the point's distance to the centre and its perpendicular distance to its own line's least-squares straight line, sorted by increasing "
     "radius. Swapping the axes swaps the horizontal and vertical versions, and straight lines give zero residuals at any slope below 45 degrees.",
     ["inputs", "configurations"],
     "All small point sets, numbers of lines, unequal line lengths, centres.",
     "Tests check only a maximum over one grid.",
     [POST], [("calc_residual_hor", POST), ("calc_residual_ver", POST)])

prop("C14", "Distortion is reported exactly when over 15% of residuals exceed one pixel",
     "For every residual table, the distortion check answers true if and only if the fraction of points with residual greater than one pixel is greater than 15 percent, whatever the order of the rows and the radii.",
     ["inputs"], "All small tables over a small set of residual values, and all exact fractions n/m around the limit.",
     "Tests evaluate two tables.",
     [POST], [("check_distortion", POST)])

# ------------------------------------------------------------------ calibration
prop("C15", "Backward and forward models are inverses of each other after conversion",
     "For every monotonic radial model, converting its coefficients to the opposite direction gives a model with the same number of coefficients that undoes it at every reference point as closely as a "
     "least-squares inverse with that many coefficients can, in both directions and for any reference points given as y,x offsets. Fewer reference points than coefficients is rejected with a ValueError.",
     ["inputs", "configurations"],
     "All coefficient lists of a grid (1..5 coefficients), both directions, default and user reference points, any point order.",
     "One coefficient list is tested.",
     [PROC], [("transform_coef_backward_and_forward", PROC)])

prop("C16", "The centre of distortion is recovered from any radially distorted grid",
     'For every rectangular grid of lines distorted by a barrel or pincushion model (a few percent at the rim) about '
     "a centre anywhere within the grid's middle, whatever the grid's aspect, spacing, line counts, missing points "
     'and rotation up to 10 degrees, the coarse centre is within one line spacing of the true centre, fine search '
     'started within the given search distance ends within a pixel of it (plus one percent of the spacing), and the iterative '
     'parabola method and both vanishing-point methods are within a third of a spacing. On lines that are exact '
     'parabolas with curvature proportional to their distance from the centre, the latter three are exact to a tenth '
     'of a pixel, and, when such lines lie symmetrically about the centre, so is the coarse one, wherever the '
     'pattern is in the frame.',
     ["inputs", "configurations"],
     "All combinations of grid size, spacing, centre position, distortion sign and strength, rotation.",
     "Tests use one square grid with a central centre.",
     [PROC], [("find_cod_coarse", PROC), ("find_cod_fine", PROC), ("find_cod_bailey", PROC), ("find_center_based_vanishing_points", PROC)])

prop("C17", "Calibration recovers a model that straightens the lines it was fitted to",
     "For every grid of lines distorted by a radial model of a few percent about a given centre, each of the fitted forward, backward and combined models has the requested number of coefficients (at least one) and, with three or more of them, maps the distorted points back to the undistorted grid (or the undistorted to the distorted ones) "
     "to within about half a percent of the field radius, up to one common scale factor near one. This also holds when a line passes exactly through the centre, when points are missing and when the spacing is optimised (the distance between undistorted lines is then the least-squares one), and a line missing from the middle of a set raises a UserWarning while a complete grid does not.",
     ["inputs", "configurations"],
     "All combinations of grid shape, centre position, model, number of coefficients, optimisation flag and data type.",
     "Tests check the first coefficients for one grid.",
     [PROC], [("calc_coef_forward", PROC), ("calc_coef_backward", PROC), ("calc_coef_backward_from_forward", PROC)])

prop("C18", "Calibration does not depend on frame, axis naming or the order of input lines",
     "Moving all points moves the found centres by the same amount and leaves coefficients unchanged, and mirroring the pattern mirrors the centre (the coarse centre to within half a line spacing, the half-pixel fine search to within one step, all others to a tenth of a pixel); exchanging x and y and the two line sets exchanges the centre coordinates and leaves coefficients unchanged; "
     "reversing the points within the lines or the order of the lines changes nothing.",
     ["inputs", "configurations"],
     "All grids and all transformations (shifts by integer vectors, transposition, point reversal, mirror) applied to every calibration entry point.",
     "No test relates two calls to each other.",
     [PROC], [("find_cod_coarse", PROC), ("calc_coef_forward", PROC)])

prop("C19", "Regenerated grid points are exactly where the fitted lines cross",
     "For every set of horizontal and vertical lines, the regenerated grid has one point per (horizontal, vertical) pair, equal to the crossing of the two fitted lines (straight or parabolic) near the given points, in the same line order, and the "
     "vertical version is the transposed horizontal one. The perspective-free option returns lines with one common slope in both directions, perpendicular to each other, and the same spacing near the centre in both directions (that of the wider one).",
     ["inputs", "configurations"],
     "All grid sizes (rows different from columns), slopes, curvatures, centres, and all options.",
     "Tests check one small grid.",
     [PROC], [("regenerate_grid_points_linear", PROC), ("regenerate_grid_points_parabola", PROC)])

prop("C20", "Undistorted perspective grids are regular, right-angled and paired by node",
     "For every grid of straight lines under a mild perspective, the generated target grid has parallel, equally spaced horizontal lines, perpendicular to parallel, equally spaced vertical lines, with equal spacing in both directions when requested and the selected scale: without optimisation the mean, median, minimum or maximum distance of the lines around the middle, or the mean times a floating-point factor; with optimisation the least-squares distance. "
     "Source and target point lists pair the same grid node at the same position, so that a perspective fitted on them maps the source grid onto the target grid.",
     ["inputs", "configurations"],
     "All grid sizes, perspectives, rotations, scale and spacing options.",
     "Tests check one grid with default options.",
     [PROC], [("generate_undistorted_perspective_lines", PROC), ("generate_source_target_perspective_points", PROC)])

prop("C21", "Perspective effect removal keeps the lines and makes the grid right-angled",
     "For every radially distorted grid seen under a mild perspective, correcting the perspective effect returns the same number of lines with the same number of points in the same order, removes the difference between the slopes of lines of one set that the perspective caused (to about 15 percent) and makes the two sets perpendicular, and "
     "leaves a grid without perspective nearly unchanged. All points move by one projective map, which turns the lines chosen by the method (mean, median, most curved, least curved of each side) into a rectangle. The result moves with the coordinate frame and follows the size option (minimum, mean, maximum, or the mean times a floating-point factor). Fewer than two lines in a direction, or no line curved in one of the required directions, is rejected with a ValueError.",
     ["inputs", "configurations"],
     "All grid sizes, centres, perspectives, methods and scale options; all subsets of missing curvature signs.",
     "Tests check one grid.",
     [PROC], [("correct_perspective_effect", PROC), ("update_center", PROC)])

# ----------------------------------------------------------------- preprocessing
prop("C22", "Dot selection keeps exactly the dots that meet the size or shape criterion",
     'For every binary image, size selection keeps each dot (a 4-connected set of pixels) whole if its pixel count '
     'lies within the given relative tolerance (inclusive) of the nominal size and removes it completely otherwise, '
     'and shape selection does the same with the relative difference of the major and minor axes, however the other '
     'dots are placed. No pixel is ever added.',
     ["inputs", "configurations"],
     "All binary images of a small size, all nominal sizes and ratios of a grid.",
     "Tests use regular dot grids only; interleaved dots, inclusive limits and irregular dots are not covered.",
     [PREP], [("select_dots_based_size", PREP), ("select_dots_based_ratio", PREP)])

prop("C23", "Distance selection removes exactly the dots off the expected spacing",
     "For every binary image, distance selection keeps a dot whole if and only if the distance to at least one of its three nearest neighbours exceeds a whole multiple of the nominal spacing by less than the given fraction of it; "
     "all other dots are removed completely, and no pixel is added, wherever dots lie.",
     ["inputs", "configurations"],
     "All placements of up to a number of dots on a grid, all spacings and ratios.",
     "Tests use one regular grid with one dot changed.",
     [PREP], [("select_dots_based_distance", PREP)])

prop("C24", "Grouping dots into lines loses, invents and mixes no dots",
     'For every set of dots, each returned line consists of input dots only, ordered along the line, no dot belongs '
     'to two lines, consecutive dots of a line are within the distance tolerance of the given slope and within the '
     'allowed gap, and the lines are ordered across the pattern by their mean position; every line with at least the '
     "accepted fraction of the longest line's dots is returned and no shorter one. On a regular grid with missing "
     'dots within tolerance the lines are exactly the rows (or columns), for point lists and for images alike.',
     ["inputs", "configurations"],
     "All subsets of small grids, all slopes, tolerances, gap and acceptance settings, any input order.",
     "Tests group one complete grid.",
     [PREP], [("group_dots_hor_lines", PREP), ("group_dots_ver_lines", PREP)])

prop("C25", "Polynomial-fit grouping returns exactly the curved rows and columns",
     'For every curved, tilted grid of points with missing points within the allowed gap and an accepted ratio up to '
     '0.65, grouping based on polynomial fits returns each row (or column) of at least the accepted length that has '
     'three or more points in the middle of the pattern exactly once with all of its points, ordered along the line, '
     'lines ordered across the pattern, and coordinates equal to the input ones up to rounding. No returned line '
     'mixes points of two rows, and an empty input is rejected with a ValueError.',
     ["inputs", "configurations"],
     "All missing-point subsets up to a size, slopes, curvatures, gap, overlap and order settings.",
     "Tests group one complete grid.",
     [PREP], [("group_dots_hor_lines_based_polyfit", PREP), ("group_dots_ver_lines_based_polyfit", PREP)])

prop("C26", "Residual filtering keeps exactly the dots close to their fitted curve",
     "For every list of lines, residual filtering keeps, in order, exactly the dots whose distance to the parabola fitted to their own line (projected by the pattern slope) is below the limit, drops lines left empty, and raises ValueError when nothing is left; "
     "the vertical version is the transposed horizontal one.",
     ["inputs", "configurations"],
     "All small lines with outliers at every position and limits around the error values.",
     "Tests check one outlier.",
     [PREP], [("remove_residual_dots_hor", PREP), ("remove_residual_dots_ver", PREP)])

prop("C27", "Point masking, rotation and subset removal keep exactly the right points",
     "The parabola mask is one exactly inside the four curved margins, and mask-based removal returns, in order, exactly those points that lie in the image and on the mask, for points anywhere in the plane; margins that do not fit are rejected with a ValueError. Rotation turns every point about the "
     "origin by the given angle in degrees or radians, and subset removal returns, in order, exactly the points not in the subset.",
     ["inputs", "configurations"],
     "All image sizes, margins (scalar or pair), curvatures, point positions inside and outside, angles.",
     "Tests count removed points for one setting.",
     [PREP], [("make_parabola_mask", PREP), ("remove_points_using_parabola_mask", PREP), ("rotate_points", PREP), ("remove_subset_points", PREP)])

prop("C28", "Dot extraction finds one point per dot, at its centroid, for any contrast",
     'For every image of well-separated dots away from the border, bright-on-dark or dark-on-bright, binarisation '
     "gives a 0/1 image with the dots as ones and the points found are the dots' centroids, one per dot, to within "
     'half a pixel (1.3 pixels when denoising is on); dots touching the border are removed. The measured dot size '
     'and spacing are the median dot area and median nearest-neighbour distance of the central region, and fewer '
     'than 25 dots is reported as not enough.',
     ["inputs", "configurations"],
     "All dot layouts of a grid family, contrasts, intensities, image shapes, missing dots.",
     "Tests use one synthetic image.",
     [PREP], [("binarization", PREP), ("get_points_dot_pattern", PREP), ("calc_size_distance", PREP), ("check_num_dots", PREP)])

prop("C29", "The measured pattern slopes equal the true tilt of the rows and columns",
     'For every dot grid tilted within 25 degrees of the axes, with a near-square central region of at least eight '
     "spacings, the horizontal slope is the tangent of the rows' tilt and the vertical slope that of the columns' "
     'tilt, with a positive vertical slope meaning x increasing with y and a positive horizontal slope meaning y '
     'increasing with x. Feeding them to line grouping recovers the rows and columns.',
     ["inputs", "configurations"],
     "All tilts of a grid of angles, both signs, aspect ratios, dot spacings, region ratios.",
     "Tests check two angles.",
     [PREP], [("calc_hor_slope", PREP), ("calc_ver_slope", PREP)])

prop("C30", "Background normalisation and thresholds are finite, scale-free and oriented",
     'For every non-negative image with a background that is not entirely zero (positive for the Fourier version), '
     'background normalisation returns a finite image of the same shape that is the input divided by a smooth '
     'positive background and scaled by its mean, so a constant image is unchanged and scaling the input scales the '
     'output. The computed threshold lies at or below the background level for a bright background and at or above '
     'it for a dark one, moves further from it as the signal-to-noise setting grows, and shifts and scales with the '
     'image.',
     ["inputs", "configurations"],
     "All small images over a small alphabet including zero regions, all window sizes, signal-to-noise settings, both background types.",
     "Tests check a mean over one image; zero background is untested.",
     [PREP], [("normalization", PREP), ("normalization_fft", PREP), ("calculate_threshold", PREP)])

# ------------------------------------------------------------------ line pattern
prop("C31", "Extremum detection reports exactly the significant local extrema",
     'For every 1D profile, without smoothing and normalisation, the positions returned are exactly the interior '
     'samples (those with a full neighbourhood; the very last of them may be left out) that are the minimum '
     '(or maximum) of their neighbourhood and differ from the level of the largest neighbours by more than the '
     'sensitivity, and the sub-pixel version moves each by less than one sample to the vertex of the parabola '
     'through its three samples. Local slopes are the absolute least-squares slopes in the sliding window, for '
     'integer and floating data alike.',
     ["inputs", "configurations"],
     "All short integer sequences over a small alphabet, all radii, sensitivities, options.",
     "Tests use one sine wave.",
     [LINE], [("get_local_extrema_points", LINE), ("locate_subpixel_point", LINE), ("sliding_window_slope", LINE)])

prop("C32", "A tilted profile samples the image along the requested tilted line",
     'For every 2D image, start index and angle for which the line stays in the image, the profile starts at the '
     "given index on the image's edge, advances at that angle over the whole image, and its values are the image "
     'interpolated at the returned positions. An index outside the possible range, an angle of 90 degrees or an '
     'input that is not 2D is rejected with a ValueError; a line within a pixel of leaving the image may be rejected '
     'too.',
     ["inputs", "configurations"],
     "All image shapes, directions, indices and angles of a grid.",
     "Tests sample two profiles.",
     [LINE], [("get_tilted_profile", LINE)])

prop("C33", "Line-pattern analysis locates the lines of any tilted line grid or chessboard",
     'For every line-grid image (dark or bright lines) or chessboard tilted by up to 15 degrees, the measured slopes '
     'and spacings equal those of the drawn lines, and every cross point returned for the horizontal (vertical) '
     'lines lies on a drawn horizontal (vertical) line to within a pixel and a half, each line away from the border '
     'being hit by every scan that crosses it, for scans away from the parallel lines.',
     ["inputs", "configurations"],
     "All tilts of a grid, spacings, aspects, contrasts, both patterns.",
     "Tests use two images.",
     [LINE], [("calc_slope_distance_hor_lines", LINE), ("get_cross_points_hor_lines", LINE), ("convert_chessboard_to_linepattern", LINE)])

prop("C34", "Generated calibration patterns have the requested geometry",
     'For every valid size, spacing, feature size and margin, the generated dot, line and chessboard images have the '
     'requested shape, contain only the documented grey levels, repeat with the requested spacing, keep the (scalar '
     'or vertical/horizontal) margin blank, and place a feature at every multiple of the spacing from the margin '
     'that fits. A dot larger than the spacing is rejected with a ValueError.',
     ["inputs", "configurations"],
     "All small (height, width, spacing, size, margin) combinations.",
     "Tests check counts for the default sizes.",
     [UTIL], [("make_dot_pattern", UTIL), ("make_line_pattern", UTIL), ("make_chessboard", UTIL), ("make_circle_mask", UTIL)])

# ------------------------------------------------------------------------- files
prop("C35", "What is saved is what is loaded",
     "For every centre and coefficient list, saving the calibration as text or json and loading it returns the same numbers bit for bit; saved Python lists and HDF datasets load back equal in value, shape and type; floating and 8-bit images saved as tif, and 8-bit images saved as png, "
     "load back equal, and other types saved to 8-bit formats are stretched linearly from minimum to maximum. The file is at the returned path, with missing parent folders created and a missing or foreign extension replaced by the right one.",
     ["inputs", "configurations", "histories"],
     "All values from a set of extreme doubles and numpy types, coefficient lists of any length, array types and shapes, file extensions in any letter case, str and Path.",
     "Tests round-trip one value per format and compare rounded numbers.",
     [LOSA], [("save_metadata_txt", LOSA), ("save_metadata_json", LOSA), ("save_python_list", LOSA), ("save_hdf_file", LOSA), ("save_image", LOSA)])

prop("C36", "Saving without overwrite never changes an existing file",
     "In every history of saves of any kind into a folder, a save with overwriting disabled leaves all existing files byte-for-byte unchanged and returns the path of a new file that holds the new data, and a save with overwriting enabled changes only the file it names. This holds for every saver, "
     "any pre-existing names, and when a save fails.",
     ["histories", "fault_sequences"],
     "All sequences of save operations (9 savers, two names, both overwrite settings) up to a depth, with pre-existing numbered files and gaps, and failing saves.",
     "Tests save twice and count files.",
     [LOSA], [("_create_file_name", LOSA), ("_create_folder", LOSA)])

prop("C37", "Loading part of an HDF dataset equals slicing the stored array",
     'For every stored 2D or 3D dataset, axis and index (nothing, one number, start/stop, start/stop/step), loading '
     'returns the same values as slicing the stored array (3D datasets in single precision, 2D datasets always '
     'whole), with the sliced axis removed exactly when a single slice is selected. A missing file or key, a dataset '
     'of another dimension or an empty selection raises ValueError, an out-of-range index raises IndexError, and the '
     'default key is the dataset called data in a group.',
     ["inputs", "configurations", "fault_sequences"],
     "All dataset shapes up to 3x4x5 including size-1 dimensions, all axes, all indices and ranges.",
     "Tests load a cube with three index forms.",
     [LOSA], [("load_hdf_file", LOSA), ("load_hdf_object", LOSA)])

prop("C38", "HDF listing and search report every dataset with its shape and type",
     "For every HDF tree, listing reports every dataset and every empty group with matching shapes and types (none for groups), the three lists are aligned, every listed key of an intact object can be opened, broken links do not stop it, and key search returns exactly the listed keys that contain the pattern; what is displayed on request shows the same keys, shapes and types. A written stream holds the requested shape, type and "
     "extra metadata, and a metadata key below the data key is rejected with a ValueError.",
     ["inputs", "histories"],
     "All trees up to a number of nodes with groups, datasets, empty groups and broken links; all patterns.",
     "Tests use one tree.",
     [LOSA], [("get_hdf_information", LOSA), ("find_hdf_key", LOSA), ("open_hdf_stream", LOSA)])

prop("C39", "Loading images returns the stored pixels, averaged over colour on request",
     'For every grey or colour image file, loading returns single-precision pixels of the stored values with height '
     "and width kept, and averaging a colour image averages over its channels only, whatever the image's size; "
     'without averaging the channels are kept. A missing or unreadable file raises ValueError, and file search '
     'returns exactly the matching files in sorted order or raises FileNotFoundError.',
     ["inputs", "fault_sequences"],
     "All small image sizes (including narrower than the channel count), 1, 3 and 4 channels, formats, patterns.",
     "Tests load one 64x64 image.",
     [LOSA], [("load_image", LOSA), ("find_file", LOSA)])

# ------------------------------------------------------------------------ global
prop("C40", "No call changes its arguments, shared state or the result of another call",
     "For every sequence of calls to the library's functions, each call returns the same result as when made alone in a fresh process, leaves all its array and list arguments unchanged, never alters a result returned earlier, and leaves the process-wide numpy, warning, random and plotting settings as they were.",
     ["histories", "inputs"],
     "All ordered pairs (and selected triples) of public calls, including the same function with different shapes, centres and coefficients.",
     "Tests call each function in isolation and never look at the arguments afterwards.",
     [POST, PROC, PREP, LINE, UTIL, LOSA], [("all public functions", "discorpy/")])

prop("C41", "Concurrent calls from threads give the same results as sequential calls",
     "When two threads call library functions at the same time on different data, or on the same read-only data, each gets the result it gets alone, for every interleaving (functions that draw with matplotlib's pyplot excepted).",
     ["schedules"],
     "All interleavings at source-line granularity with up to a number of preemptions of pairs of calls on different inputs.",
     "No test uses threads, and a test run samples one schedule.",
     [POST, UTIL, PROC, PREP, LINE], [("unwarp_image_backward and others", POST)])

prop("C42", "The processing chain from pattern image to corrected image works end to end",
     "For every dot-pattern image distorted by a radial model in the calibrated range whose centre lies between the lines of the pattern, running the documented workflow (extract dots, measure size, spacing and slope, group lines, find centre, fit coefficients, unwarp) gives lines whose root-mean-square residual is below a quarter of a pixel, and a corrected image whose map to the undistorted scene is, over the area covered by the pattern, an affine map within 1 % of the identity to within 0.3 pixel root-mean-square. The same holds for line patterns and chessboards, for coefficients from the backward fit, the forward fit with conversion, and after saving and loading them. The distortion check is positive before correction for a clear (5 %) barrel distortion and negative after correction.",
     ["inputs", "configurations"],
     "All combinations of pattern shape, spacing, centre, distortion sign and strength, tilt.",
     "No test runs the chain.",
     [PREP, PROC, POST], [("workflow of examples/", "examples/")])

prop("C43", "A path means the same file for every reader, writer and platform",
     "For every saving and loading function and every way of writing a path (str or Path; on Windows also with backslashes, in plain Python strings where backslash-letter pairs became control characters, or mixed), the file written, returned and read is the one the path names, and no other file appears; elsewhere such characters in a file name are kept as they are. File search accepts all these spellings on every platform. A loader given a missing file raises ValueError and creates nothing. Missing folders are created, also when another program creates one of them at the same moment.",
     ["inputs", "configurations", "schedules"],
     "All path spellings over all escape letters, platforms, functions, and all moments at which a folder of the chain appears.",
     "The tests run on one platform, with one spelling and without other programs.",
     [LOSA], [("__correct_path, __get_path", LOSA), ("_create_folder", LOSA)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
