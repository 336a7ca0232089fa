#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from one table.  A property is
claimed when checks/<id>.py exists; otherwise it goes under not_applicable."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
POST = "discorpy/post/postprocessing.py"
PREP = "discorpy/prep/preprocessing.py"
LINE = "discorpy/prep/linepattern.py"
PROC = "discorpy/proc/processing.py"
UTIL = "discorpy/util/utility.py"
LOSA = "discorpy/losa/loadersaver.py"

PROPS = []


def prop(pid, title, statement, over, text, why, mech, technique,
         level_note):
    assert len(title) <= 80, (pid, len(title))
    files, ms = [], []
    for m in mech:
        path, names = m[0], m[1:]
        files.append(path)
        ms += [{"name": n, "where": path} for n in names]
    PROPS.append(dict(
        row={"id": pid, "title": title, "statement": statement,
             "quantifier": {"over": over.split(), "text": text},
             "why_tests_cant": why,
             "anchors": {"files": files, "mechanism": ms,
                         "hook_needed": None}},
        technique=technique, note=level_note))


prop("C01", "A backward-unwarped image is the polynomial model, pixel by pixel",
     "Unwarping an image with a backward model of any length and any center gives, at every output pixel (x, y), the source image interpolated at center + F(r)*(offset from the center), with F(r) the polynomial in the distance r of that pixel from the center and the source position clipped to the image; this holds for every image size, data type and interpolation order. "
     "With coefficients [1, 0, ...] the image comes back unchanged, and unwarping is linear in the image, never leaves the value range for order <= 1, and keeps shape.",
     "inputs configurations",
     "all image shapes and dtypes, centers inside and outside the image, 1 to 6 coefficients, interpolation orders 0 to 5 and boundary modes",
     "The tests unwarp one square line-pattern image with one model and look at a residual; a wrong term, swapped axis or off-by-one in another shape or center passes.",
     [(POST, "unwarp_image_backward")],
     "generated images vs an independent reference (model + bilinear interpolation), ramp images to read off source coordinates, metamorphic relations",
     "sampled images and models; tolerance covers single-precision source coordinates")

prop("C02", "All ways of unwarping the same data agree",
     "Unwarping one slice, a chunk of slices, a color image channel by channel or a whole image with the library's own or the OpenCV-style remapping entry points gives the same rows and channels as unwarping the full image of each projection with the same center and coefficients. "
     "This holds for every slice index, every chunk range (including negative stop indices), tall images beyond 32767 rows and every number of channels, and requests outside the data are rejected.",
     "inputs configurations",
     "stacks of every depth/height/width, every index and range, dtypes, grey and color images",
     "Tests compare one slice and one chunk of one square stack.",
     [(POST, "unwarp_slice_backward", "unwarp_chunk_slices_backward", "_mapping"),
      (UTIL, "unwarp_color_image_backward", "mapping_cv2", "unwarp_image_backward_cv2")],
     "differential testing of the entry points against the whole-image result on generated stacks",
     "sampled stacks; cv2 results compared within its 1/32 weight quantisation")

prop("C03", "Padding on unwarp keeps the corrected view and only adds to it",
     "With padding given as an integer, four integers or automatic, the unwarped image has exactly the requested extra rows and columns (top, bottom, left, right) and its inner part equals the unpadded result wherever that used only real image data; pixels whose source lies outside the image follow the chosen padding mode. "
     "Automatic padding never crops, and is nothing for an identity model.",
     "inputs configurations",
     "image shapes, centers, models, padding forms and modes, grey and color, and both remapping backends",
     "Tests check shapes for one or two paddings of one image.",
     [(UTIL, "unwarp_color_image_backward", "unwarp_image_backward_cv2", "find_point_to_point")],
     "generated paddings vs a reference built on the padded image; metamorphic comparison with the unpadded result",
     "sampled paddings; the automatic size is only bounded, as its inverse model is approximate")

prop("C04", "Forward unwarping scatters every pixel to the model position",
     "Unwarping an image with a forward model puts the value of each input pixel at the nearest pixel to center + F(r)*(offset from the center) taken to the nearest border pixel if that is outside; every output value is an input value that maps there, or the fill value 0 where none maps. "
     "It keeps shape and type and is the identity for coefficients [1, 0, ...].",
     "inputs",
     "image shapes, dtypes, centers and models (injective and not)",
     "One test compares one square image.",
     [(POST, "unwarp_image_forward")],
     "generated images with distinct pixel values vs a reference scatter",
     "sampled; positions within 1e-6 of a rounding boundary are not judged")

prop("C05", "Points and lines are unwarped by the same model, both directions",
     "Forward unwarping of lines of points moves every point exactly to center + F(r)*(offset), and backward unwarping gives the points which the backward model maps onto the given ones; number, order and grouping of points are kept, for integer, single and double precision input alike. "
     "The point-to-point mapping used to look up positions agrees with the source position used when unwarping images.",
     "inputs",
     "any number of lines and points, centers in and out of the points, monotone models of 1 to 6 terms, lists/tuples/arrays of any numeric type",
     "Tests unwarp one synthetic grid and check a residual.",
     [(POST, "unwarp_line_forward", "unwarp_line_backward"), (UTIL, "find_point_to_point")],
     "round trips and comparison with an independent model evaluation on generated lines",
     "sampled; backward inversion judged to 2e-3 px (numerical optimiser)")

prop("C06", "Inverting model coefficients gives the inverse mapping",
     "Transforming coefficients from the forward to the backward model, or back, gives a polynomial that undoes the given one over the reference points: applying both returns the starting radius within the residual of the best polynomial of that length. "
     "Identity and pure scaling models invert exactly, and reference points fewer than the coefficients are rejected.",
     "inputs",
     "mild monotone models of 1 to 6 terms, default and given reference points, both directions",
     "One model in the tests.",
     [(PROC, "transform_coef_backward_and_forward")],
     "round trip and least-squares reference on generated models",
     "sampled models; accuracy relative to the best fit")

prop("C07", "The center of distortion of a distorted grid is found",
     "For an evenly spaced grid (at least 4 lines each way) distorted radially about a center inside it, the coarse estimate is within about one line spacing of that center, and the refined, Bailey and vanishing-point estimates are within a small fraction of it; for lines that are exact parabolas about the center they are exact to rounding. "
     "This does not depend on image size, grid aspect, small tilt, barrel or pincushion sign (vanishing-point method: barrel), or on where the center lies between grid lines.",
     "inputs",
     "grids of 4..15 lines each way, spacing, aspect, tilt, centers on and between lines, distortion sign and strength",
     "Tests use one grid with one center at a tolerance of several pixels.",
     [(PROC, "find_cod_coarse", "find_cod_fine", "find_cod_bailey", "find_center_based_vanishing_points", "_para_fit_hor", "_para_fit_ver", "_calc_metric")],
     "synthetic grids with known center (ground-truth oracle)",
     "sampled grids; tolerances from calibrated error of the methods")

prop("C08", "Calibration recovers the distortion model from grid lines",
     "From the lines of an evenly spaced grid distorted with a known model and center, the calculated backward coefficients map the ideal grid onto the given points, the forward coefficients map the given points onto an ideal grid, and the backward-from-forward result returns both consistently, up to the overall scale; unwarped lines are straight and evenly spaced to a small fraction of the distortion. "
     "An undistorted grid gives the identity model, the number of coefficients returned is the number asked for, and the optimized line spacing is the least-squares one.",
     "inputs configurations",
     "grids, tilt, centers (also exactly on a line), models with 1 to 3 distorting terms, number of factors, optimizing on and off",
     "Tests recover one model from one grid.",
     [(PROC, "calc_coef_backward", "calc_coef_forward", "calc_coef_backward_from_forward", "_calc_undistor_intercept", "_optimize_intercept")],
     "synthetic grids with known model (ground-truth oracle), end effect judged on the unwarped points",
     "sampled grids with mild distortion; tolerance relative to the distortion amplitude")

prop("C09", "Calibration results do not depend on the coordinate frame",
     "Shifting all points shifts the found center and leaves the coefficients; scaling all coordinates by s scales the center by s and the i-th coefficient by s^-i; swapping the x and y roles swaps the center coordinates; mirroring mirrors the center. "
     "Reversing or shuffling the points within a line, or listing the lines in the opposite order, changes nothing.",
     "inputs",
     "generated distorted grids and frame changes",
     "Tests have one grid in one frame.",
     [(PROC, "find_cod_coarse", "find_cod_bailey", "calc_coef_backward", "calc_coef_forward", "calc_coef_backward_from_forward", "regenerate_grid_points_linear", "calc_perspective_coefficients")],
     "metamorphic relations on generated grids",
     "sampled; tolerances for single-precision internal fits")

prop("C10", "Perspective coefficients are the homography between the point sets",
     "Coefficients calculated from source and target points related by a homography reproduce it: in forward direction they map source onto target, in backward direction target onto source, and the two are inverse to each other; with more than four noisy points they are a least-squares solution. "
     "Correcting lines applies the homography to every point, and correcting an image samples it at the homography of each output pixel, clipped to the image.",
     "inputs configurations",
     "non-degenerate point sets of 4 to 40 points, all mild homographies, image shapes and dtypes, orders, scales",
     "Tests use one quadrilateral.",
     [(PROC, "calc_perspective_coefficients"), (POST, "correct_perspective_line", "correct_perspective_image")],
     "ground-truth homographies, independent projective mapping and interpolation reference",
     "sampled")

prop("C11", "Perspective targets are regular grids placed on their sources",
     "The four target points generated from a quadrilateral form a rectangle (a square if equal sides are asked) aligned with it, with sides following the chosen scale (mean, min, max or a factor of the mean), in the order of the returned source points, which are the given points whatever order or coordinate order they came in; a rectangle given as input is returned as its own target. "
     "The targets of a whole grid of lines form an evenly spaced rectangular grid, with equal spacing both ways if asked, and equal the sources when those already are such a grid.",
     "inputs configurations",
     "convex quadrilaterals, tilt, all permutations of points, grids of lines and tilts, all scale options",
     "Tests check shapes and one example.",
     [(PROC, "generate_4_source_target_perspective_points", "generate_source_target_perspective_points", "generate_undistorted_perspective_lines")],
     "geometric invariants over generated quadrilaterals and grids",
     "sampled")

prop("C12", "Regenerated grid points are the crossings of the fitted lines",
     "Regenerating grid points from straight lines (or their line coefficients) or from parabolas gives, for every pair of a horizontal and a vertical line, the one point that lies on both fits, listed consistently in both directions; a perfect grid is returned unchanged, lines with missing points are completed, and noise is only smoothed. "
     "Moving the origin of lines adds the given offset to every point and nothing else.",
     "inputs configurations",
     "grids with tilt, missing points, radial or perspective distortion, origin offsets, with and without center finding",
     "One grid in the tests.",
     [(PROC, "regenerate_grid_points_linear", "regenerate_grid_points_parabola", "update_center")],
     "independent fits and crossings on generated grids",
     "sampled")

prop("C13", "Perspective effect is removed without hurting radial distortion",
     "Correcting the perspective effect of radially distorted grid lines leaves a grid without perspective (nearly) as it was, makes the lines of a perspective-warped grid parallel again, and keeps number and order of points; lines all curved one way are rejected. "
     "The iterative vanishing-point center of such a grid is the center of its radial distortion.",
     "inputs configurations",
     "distorted grids with and without mild perspective, all methods and scales",
     "One grid in the tests.",
     [(PROC, "correct_perspective_effect", "find_center_based_vanishing_points_iteration", "regenerate_grid_points_parabola")],
     "synthetic grids with known perspective and radial model",
     "sampled grids; tolerance from calibrated method error")

prop("C14", "Residual metrics measure the distance of points from straight lines",
     "The residual reported for each point is its distance from the centre of distortion paired with its distance to the straight line fitted to its own line of points, sorted by distance; straight lines give zero, a known offset of a point shows up at its size, and the metric is unaffected by rotation-free shifts of all points with the center. "
     "The verdict on distortion is positive exactly when more than 15 percent of the residuals exceed one pixel.",
     "inputs",
     "lines of points in any slope and number, offsets",
     "Tests use one grid.",
     [(POST, "calc_residual_hor", "calc_residual_ver", "check_distortion")],
     "independent fit and distance reference on generated lines",
     "sampled; verdicts within a margin of the thresholds not judged")

prop("C15", "Dot images yield every dot at its centroid, with true size and spacing",
     "Binarizing an image of well-separated dots (bright or dark, uneven illumination allowed) and extracting their centers gives one point per dot within a fraction of a pixel; the reported median dot size, spacing, and the slopes of horizontal and vertical dot lines are those of the pattern. "
     "The calculated threshold lies between background and dots.",
     "inputs configurations",
     "grids of dots: size, spacing, tilt, contrast, polarity, background gradient, image shape",
     "Tests use one generated pattern.",
     [(PREP, "binarization", "get_points_dot_pattern", "calc_size_distance", "calc_hor_slope", "calc_ver_slope", "check_num_dots", "calculate_threshold")],
     "generated dot images with known ground truth",
     "sampled images")

prop("C16", "Dot selection keeps exactly the dots meeting the criterion",
     "Selecting dots by size, by axis ratio or by distance keeps, complete and unchanged, exactly the dots meeting the criterion (pixel count within dot_size*(1 -/+ ratio); ratio of the axes of the moment ellipse less than 1 + ratio and more than one pixel each way; one of the three nearest dots farther than a whole multiple of dot_dist by less than ratio*dot_dist), and removes the others entirely, whatever their shape and position, overlapping bounding boxes and image borders included. "
     "Selected pixels are always a subset of the input.",
     "inputs configurations",
     "binary images of blobs of varied size and shape, ratios",
     "Tests use equal dots.",
     [(PREP, "select_dots_based_size", "select_dots_based_ratio", "select_dots_based_distance")],
     "generated labelled blobs vs an independent per-blob decision",
     "sampled; blobs within a margin of the limits are not judged")

prop("C17", "Points are grouped into the true lines of the grid",
     "Grouping the points of a (tilted, mildly distorted) grid into horizontal or vertical lines returns each grid line once, with all of its points and no others, ordered across lines and along each line, whatever order the points come in; only lines with too few points for the accepted ratio are dropped. "
     "No point is invented, altered or listed twice, and the polynomial variants do this for curved lines too.",
     "inputs configurations",
     "grids with missing points, tilt, distortion, point order, parameters",
     "Tests group one grid.",
     [(PREP, "group_dots_hor_lines", "group_dots_ver_lines", "group_dots_hor_lines_based_polyfit", "group_dots_ver_lines_based_polyfit")],
     "generated grids with known membership",
     "sampled")

prop("C18", "Point filters remove outliers and keep everything else",
     "Removing residual dots keeps every point closer to its line than the limit and removes every one clearly farther; masking with parabolas keeps exactly the points inside the four boundary parabolas, returned unchanged; a filter never adds, moves or reorders points of a line. "
     "The mask covers the same region for the same parameters, whatever the points are.",
     "inputs configurations",
     "lines with planted outliers, residual limits, mask parameters, image shapes, points inside and outside the image",
     "One example each in the tests.",
     [(PREP, "remove_residual_dots_hor", "remove_residual_dots_ver", "rotate_points", "remove_subset_points", "make_parabola_mask", "remove_points_using_parabola_mask")],
     "generated points vs an independent decision per point",
     "sampled; points within a margin of the limit not judged")

prop("C19", "Background normalization flattens without inventing values",
     "Normalizing the background of an image by median or FFT filtering returns a finite image of the same shape that does not change when the image is multiplied by a positive factor (up to that factor), flattens a slowly varying illumination, and keeps the contrast of small features. "
     "Zero background is handled without inf or nan.",
     "inputs configurations",
     "images of any shape, zeros, illumination profiles, filter sizes",
     "Tests normalize one pattern.",
     [(PREP, "normalization", "normalization_fft", "_make_window"), (LINE, "convert_chessboard_to_linepattern")],
     "metamorphic relations and reference median filter on generated images",
     "sampled")

prop("C20", "Extrema and slopes of 1D data are located to sub-pixel accuracy",
     "Searching extremum points of a profile finds every well-separated maximum or minimum, and only those, to a fraction of a pixel for smooth profiles; sub-pixel location of a sampled parabola is exact. "
     "The sliding-window slope of a linear profile is its slope everywhere, for any data type.",
     "inputs configurations",
     "profiles with known extrema, spacing, noise-free, polarity, window sizes, dtypes",
     "One profile in tests.",
     [(LINE, "locate_subpixel_point", "get_local_extrema_points", "sliding_window_slope")],
     "synthetic profiles with known extrema",
     "sampled")

prop("C21", "A tilted profile is the image sampled along the tilted line",
     "The profile taken at a position and angle holds the coordinates of a straight line through the image at that angle and the (interpolated) image values at these coordinates, in both directions, for images of any size. "
     "At zero angle it is the row or column itself.",
     "inputs",
     "image shapes (also beyond 32767), index, angles of both signs, directions",
     "One image in the tests.",
     [(LINE, "get_tilted_profile")],
     "smooth analytic images as oracle",
     "sampled; interpolation tolerance")

prop("C22", "Slope and spacing of a line pattern are measured truly",
     "The slope and line distance calculated from an image of parallel lines in either direction are those of the pattern, for bright or dark lines, any tilt in the search range and non-square images. "
     "Converting a chessboard gives a line pattern with lines on the board's edges.",
     "inputs configurations",
     "line patterns: pitch, tilt, thickness, contrast, image shape; chessboards",
     "One image in the tests.",
     [(LINE, "calc_slope_distance_hor_lines", "calc_slope_distance_ver_lines", "convert_chessboard_to_linepattern")],
     "generated patterns with known slope and pitch",
     "sampled")

prop("C23", "Cross points lie on the lines of the pattern",
     "The cross points extracted from a line-pattern image along the horizontal and vertical directions lie on the true lines to a fraction of a pixel, cover every line crossed by the scan range, and become a complete grid after grouping. "
     "The scan range, margin and number of steps asked for are respected.",
     "inputs configurations",
     "line patterns: pitch, tilt, shape, polarity, mild distortion, ratio and margins",
     "One image in the tests.",
     [(LINE, "get_cross_points_hor_lines", "get_cross_points_ver_lines")],
     "generated patterns with known line geometry",
     "sampled")

prop("C24", "Generated test patterns have exactly the documented geometry",
     "Generated dot, line and chessboard patterns have the requested size, grey levels, spacing, margins and element size for every parameter choice. "
     "Elements are where the parameters say, none is missing, and nothing else is drawn.",
     "configurations",
     "all pattern parameters",
     "Tests check shapes for defaults.",
     [(UTIL, "make_circle_mask", "make_dot_pattern", "make_line_pattern", "make_chessboard")],
     "independent re-drawing of the pattern for generated parameters",
     "sampled parameters")

prop("C25", "Saved calibration data reload as saved",
     "Calibration results and point lists written to text, JSON or pickle files and loaded again give the same center and coefficients (to the documented precision in text), the same lists and the same nested data, whatever their magnitude, sign, type or number of entries. "
     "Loading text files with the fields in the documented layout gives them in order, and missing files are rejected.",
     "inputs histories",
     "any finite values, list sizes, nesting, array dtypes, path forms",
     "One example each in the tests.",
     [(LOSA, "save_metadata_txt", "load_metadata_txt", "save_metadata_json", "load_metadata_json", "save_python_list", "load_python_list", "find_file")],
     "round trips on generated data",
     "sampled")

prop("C26", "HDF data are read, listed and streamed faithfully",
     "Reading from an HDF file gives the stored values for every axis, single index, range (with step) or list of indices, in the stored order, as documented; saving and streaming give files that read back as written; finding and listing datasets reports exactly those present with their shapes and types. "
     "Missing or unreadable files, unknown keys and out-of-range indices are rejected.",
     "inputs histories",
     "files with nested groups, 1D to 4D datasets and dtypes, every axis and index form",
     "One 3D dataset in the tests.",
     [(LOSA, "load_hdf_file", "load_hdf_object", "save_hdf_file", "open_hdf_stream", "get_hdf_information", "find_hdf_key")],
     "model-based comparison with the in-memory arrays for generated files",
     "sampled")

prop("C27", "Image files keep the picture",
     "Images saved to TIFF keep their values and type, other formats store the image as 8 bit with full-range rescaling where documented, and loading gives the stored grey values or the documented average of the color channels. "
     "Order of pixels and shape are kept for every size and type. Plots of points have the requested size in pixels and show every point at its position, y pointing down; plots of residuals show every pair, radius to the right and residual upwards.",
     "inputs configurations",
     "image shapes, dtypes, value ranges, formats, grey and color",
     "One image in the tests.",
     [(LOSA, "load_image", "save_image", "save_plot_image", "save_residual_plot", "save_plot_points")],
     "round trips and reference conversion on generated images",
     "sampled")

prop("C28", "Saving never destroys earlier results unless told to",
     "Whatever sequence of save operations is made, with overwriting off every call gets a new file and leaves all existing files as they were; with overwriting on exactly the named file is replaced, and missing folders are created. "
     "The returned or created file holds what was saved last to it.",
     "histories configurations",
     "sequences of saves to colliding names, formats and folders, both overwrite settings, pre-existing files",
     "Tests save once.",
     [(LOSA, "save_image", "save_metadata_txt", "save_metadata_json", "save_python_list", "save_hdf_file", "open_hdf_stream", "save_plot_image", "save_plot_points", "save_residual_plot")],
     "stateful model-based testing against a model of the directory",
     "sampled histories of up to a dozen operations")

prop("C29", "Calls leave their inputs alone and do not depend on history",
     "No processing function changes the arrays and lists passed to it, and the same call gives the same result whatever calls were made before. "
     "Results do not depend on memory layout (transposed, strided or read-only views) of the inputs, nor on whether coefficients and lines come as list, tuple or array. Calls, saving plots included, leave the settings of numpy and matplotlib and the open figures of the user as they were.",
     "inputs histories",
     "every public processing function with generated inputs, call orders and memory layouts",
     "No test looks at inputs after a call or repeats a call.",
     [(LOSA, "save_residual_plot", "save_plot_image"), (POST, "unwarp_image_backward", "unwarp_line_backward", "calc_residual_hor"), (PREP, "binarization", "group_dots_hor_lines", "remove_residual_dots_hor"), (PROC, "calc_coef_backward", "regenerate_grid_points_linear"), (LINE, "get_cross_points_hor_lines"), (UTIL, "unwarp_image_backward_cv2", "unwarp_color_image_backward")],
     "metamorphic: bytes of inputs before/after, repeated and interleaved calls, layout variants",
     "sampled")

prop("C30", "A calibration image in gives a distortion-free image out",
     "Running the documented workflow on an image of a regular dot, line or chessboard pattern distorted with a known radial model (and perspective) gives a center and coefficients that straighten it: residuals after correction are sub-pixel and far below those before. "
     "The undistorted pattern is judged free of distortion.",
     "inputs configurations",
     "patterns, pitch, distortion sign and strength, center, tilt",
     "Tests run stages separately on one undistorted pattern.",
     [(PREP, "binarization", "group_dots_hor_lines"), (LINE, "get_cross_points_hor_lines"), (PROC, "find_cod_coarse", "calc_coef_backward"), (POST, "unwarp_line_backward", "unwarp_image_backward", "check_distortion")],
     "end-to-end on synthetic distorted patterns with known model",
     "few, expensive, sampled cases")

prop("C31", "Invalid requests are rejected, not answered wrongly",
     "Requests beyond a documented limit are refused with an exception (ValueError, or for files and indices the documented one) and never return data: slices outside the stack, data that is not 3D (slices) or 2D (profiles), other than eight perspective coefficients or four corner points, fewer reference points than coefficients, fewer than three samples, profile lines leaving the image or at 90 degrees, margins larger than the image, no points to group or none left, non-binary images, missing lines or curvatures for perspective, oversized dots, malformed pads, missing or unreadable files, missing keys and indices. "
     "Valid requests next to them are answered.",
     "inputs",
     "inputs just outside and just inside each documented limit",
     "Tests try one bad value for some functions.",
     [(POST, "unwarp_slice_backward", "unwarp_chunk_slices_backward"), (PREP, "make_parabola_mask", "group_dots_hor_lines", "get_points_dot_pattern", "remove_residual_dots_hor"), (LINE, "get_tilted_profile"), (PROC, "calc_perspective_coefficients", "correct_perspective_effect", "transform_coef_backward_and_forward"), (LOSA, "load_image", "load_hdf_file"), (UTIL, "unwarp_color_image_backward")],
     "boundary-value generation around each documented limit",
     "sampled")

prop("C32", "Video unwarping shows every frame corrected and ends with the stream",
     "Unwarping a video stream shows each frame corrected exactly as a single image would be, in order, and stops after the frame on which ESC is pressed or when the stream ends, releasing the stream and closing the window. "
     "It never shows a frame it did not receive.",
     "histories fault_sequences",
     "streams of any length, frame sizes, models, read failures, quit times",
     "There is no camera in the tests.",
     [(UTIL, "unwarp_video_cv2")],
     "fake capture device and window driven by generated frame histories",
     "sampled histories")


def main():
    claimed, na = [], []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p["row"]) + "\n")
    for p in PROPS:
        pid = p["row"]["id"]
        if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
            claimed.append({
                "property": pid,
                "quick_cmd": "/opt/venv/bin/python run.py " + pid,
                "thorough_cmd": "/opt/venv/bin/python run.py %s --tier "
                                "thorough" % pid,
                "evidence_file": "evidence/%s.json" % pid,
                "technique": "property-based testing: " + p["technique"],
                "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": pid, "reason": "check not built yet"})
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/selftest.py",
           "checks": claimed, "not_applicable": na,
           "notes": "No hooks: the checks call discorpy's public functions "
                    "from /repo's working tree, in worker processes with a "
                    "private byte-code cache."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
