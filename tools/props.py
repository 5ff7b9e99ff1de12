"""Single source for /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, pathlib

P = []
def prop(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

RF = "src/stcal/ramp_fitting/"
# ---------------------------------------------------------------- ramp fitting, OLS
prop("C01", "OLS slopes are optimally weighted fits of the uncontaminated ramp segments",
 "For every ramp cube, the fitted count rate of each pixel equals, per integration and for the whole exposure, the inverse-read-variance weighted combination of the optimally (signal-to-noise) weighted straight-line slopes of the contiguous runs of usable groups, cut at cosmic-ray hits, saturation and bad groups. Pixels with no usable data get NaN, and no pixel's result depends on any other pixel.",
 ["inputs", "configurations"], "all data, group/pixel flags, gains, read noises, zero frames and exposure timings of 1-4 integrations, 1-20 groups",
 "The tests fix a few dozen hand-made flag patterns on one or two pixels; the segmentation logic branches on the whole flag history of each pixel (2^groups patterns times integrations), which only generated patterns with a reference fit can sample.",
 [RF+"src/slope_fitter.c", RF+"ols_fit.py", RF+"ramp_fit.py"],
 [("segmentation of each ramp", RF+"src/slope_fitter.c: compute_integration_segments"), ("weighted segment fit", RF+"src/slope_fitter.c: ramp_fit_pixel_integration_fit_slope_seg*"), ("combination over segments and integrations", RF+"src/slope_fitter.c: ramp_fit_pixel")],
 observe_at=["ramp_fit.ramp_fit_data return values (rate and rateints slopes)"])
prop("C02", "OLS variances and errors follow the segment noise model",
 "For every ramp cube, the Poisson and read-noise variances reported per integration and per exposure equal the combination (inverse of the sum of inverses) of the per-segment variances computed from the median rate plus dark current, gain, read noise, group time and segment length, and the reported error is consistent with them. Variances and errors are zero, never NaN, negative or infinite, where no slope could be measured; when some groups carry charge-loss flags the read-noise variance of pixels with a measured slope is the one the ramp would have without those flags.",
 ["inputs", "configurations"], "as C01, plus average dark current maps, charge-loss flags",
 "Existing tests compare a few pixels with numbers recorded from earlier runs; they cannot show the variance formula holds for every combination of segments, timings, gains and special cases.",
 [RF+"src/slope_fitter.c", RF+"ols_fit.py"],
 [("segment variances", RF+"src/slope_fitter.c: ramp_fit_pixel_integration_fit_slope_seg_*"), ("charge-loss read noise recalculation", RF+"src/slope_fitter.c: ramp_fit charge loss read noise")],
 observe_at=["err, var_poisson, var_rnoise of both products"])
prop("C03", "Ramp-fit data quality: compression of group flags to rates",
 "For every input flag history, a pixel's rate in one integration is marked unusable exactly when it had no usable group there (every group saturated or do-not-use; for ordinary least squares also when no usable run of groups is left between the cuts or there is no valid gain), and the exposure rate is marked unusable exactly when all integrations are. Saturation and jump flags appear in each product exactly when they occurred in at least one group covered by it, and flags in the input pixel mask always survive.",
 ["inputs"], "all group flag and pixel flag cubes, gains, zero frames, both fitting algorithms",
 "Flag compression is a per-pixel function of the whole group-flag history; tests check a handful of hand-written histories.",
 [RF+"src/slope_fitter.c", RF+"utils.py", RF+"likely_fit.py"],
 [("flag compression", RF+"utils.py: dq_compress_sect, dq_compress_final"), ("C flag compression", RF+"src/slope_fitter.c: ramp_fit_pixel dq handling")],
 observe_at=["dq arrays of both products"])
prop("C04", "Optional per-segment fit results describe the same fit",
 "When per-segment results are requested, each segment's slope, uncertainty, variances, intercept, intercept uncertainty and weight equal those of an independent weighted straight-line fit to exactly the groups of that segment, the pedestal is the first group minus the integration's rate carried back over the first group's mean time and the reported cosmic-ray magnitudes are the jumps between groups at flagged hits. Asking for them never changes the primary products.",
 ["inputs", "configurations"], "as C01 with optional results on",
 "Tests compare optional output for a few pixels against recorded numbers.",
 [RF+"src/slope_fitter.c"],
 [("optional results", RF+"src/slope_fitter.c: get_pixel_ramp_segs / save_opt_res / build_opt_res")],
 observe_at=["optional results tuple"])
prop("C05", "Splitting a ramp fit over worker processes changes nothing",
 "For every ramp cube and every requested degree of parallelism, fitting the image in row slices in several worker processes returns the same rate, integration and optional products, with the same shapes and metadata-independent values, as fitting it in one process.",
 ["inputs", "configurations"], "all cubes and all slice counts, including row counts that do not divide evenly and slices whose number of segments differ",
 "The tests run one or two fixed cubes through two slices.",
 [RF+"ols_fit.py", "src/stcal/multiprocessing.py"],
 [("row slicing and reassembly", RF+"ols_fit.py: ols_ramp_fit_multi, slice_ramp_data, assemble_pool_results")],
 observe_at=["ramp_fit_data products for different core counts"])
prop("C06", "Early-saturating ramps are rescued by first group or zero frame, right timing",
 "A ramp whose only usable group is the first one gets a rate from that group divided by the mean exposure time of its averaged frames, and, when no group is usable but a zero frame exists, from the zero frame divided by one frame time; if suppression of one-group ramps is requested the first kind is treated as having no usable group at all. The choice is made per pixel and per integration, and ramps with more usable groups are unaffected by the option or by zero-frame contents.",
 ["inputs", "configurations"], "all mixtures of early-saturating and normal ramps, zero frames with zeros, frames averaged per group, one/two/many-group exposures",
 "Only a few fixed pixels are covered by tests; the rescue interacts with flags in other integrations.",
 [RF+"src/slope_fitter.c", RF+"ramp_fit.py", RF+"ramp_fit_class.py"],
 [("0th-group and zero-frame substitution", RF+"src/slope_fitter.c: is_0th/is_zframe handling"), ("one-group suppression", RF+"ramp_fit.py: suppress_one_good_group_ramps")],
 observe_at=["slopes and variances of rescued pixels"])
prop("C07", "The native ramp fitter is memory safe and total",
 "For every well-formed input (any flags, NaN or infinite samples, any shape and byte order) the compiled ramp fitter terminates, never reads or writes outside its arrays, never crashes the process and never modifies pixels other than the one it is processing.",
 ["inputs"], "all well-formed ramp cubes, including degenerate shapes, big-endian arrays and fully flagged data",
 "An out-of-bounds access in C usually goes unnoticed in ordinary tests; it needs adversarial flag patterns plus a sanitizer to become visible.",
 [RF+"src/slope_fitter.c"],
 [("segment list, optional result arrays and cube access", RF+"src/slope_fitter.c")],
 observe_at=["address/undefined-behaviour sanitizer reports"])
# ---------------------------------------------------------------- likelihood
prop("C08", "Likelihood ramp fit equals generalized least squares on group differences",
 "For every ramp and read pattern with at least four groups, the likelihood algorithm's slope, error and variances for an integration equal the generalized-least-squares solution over the usable group differences with the full (read-noise plus Poisson) covariance matrix implied by the read times, evaluated with the documented count-rate guess; groups that the fit itself flags around a large event, when asked to look for these, are not used; over several integrations the exposure's rate is their inverse-variance weighted mean, with the Poisson variances rescaled to the common rate.",
 ["inputs", "configurations"], "all ramps, flags, gains/read noises and read patterns (uniform, gapped, or explicit)",
 "The implementation solves a tridiagonal system with recursions; tests check a few ramps against recorded values. Only a dense reference solve over generated patterns can show the recursion is right.",
 [RF+"likely_fit.py", RF+"likely_algo_classes.py"],
 [("covariance terms per read pattern", RF+"likely_algo_classes.py: Covar"), ("tridiagonal solve", RF+"likely_fit.py: fit_ramps")],
 observe_at=["slope, err, var_poisson, var_rnoise, chisq"])
prop("C09", "Likelihood jump detection rejects exactly the significant group differences",
 "While fitting, the likelihood algorithm flags a jump at a group when omitting its difference (or two adjacent differences) improves the fit by more than the configured threshold, repeats until no significant improvement remains or too few differences are left, and the final fit uses exactly the surviving differences. Ramps without any significant improvement keep their flags.",
 ["inputs", "configurations"], "all ramps with 0-4 injected steps, all thresholds",
 "Tests inject one or two steps at fixed places.",
 [RF+"likely_fit.py"],
 [("iterative one/two-difference omission", RF+"likely_fit.py: mask_jumps")],
 observe_at=["group flags after the fit, slopes"])
# ---------------------------------------------------------------- Casertano
prop("C10", "Uneven-resultant ramp fit equals the Casertano (2022) closed form",
 "For every read pattern with unequal resultants, the uneven-spacing ramp fitter's slope and both variances for a pixel equal the published Casertano weighting evaluated on each run of consecutive good resultants and combined by inverse variance. Results per pixel are independent of neighbouring pixels and of pixel order.",
 ["inputs", "configurations"], "all read patterns, resultants, flags and read noises",
 "Tests use a handful of patterns and statistical agreement, not exact agreement per pixel.",
 [RF+"ols_cas22/_fit.pyx", RF+"ols_cas22/_ramp.pyx", RF+"ols_cas22_fit.py"],
 [("single ramp fit", RF+"ols_cas22/_ramp.pyx: fit_ramp"), ("splitting by flags", RF+"ols_cas22/_ramp.pyx: init_ramps"), ("combination", RF+"ols_cas22/_jump.pyx: fit_jumps")],
 observe_at=["parameters and variances returned"])
prop("C11", "Uneven-resultant jump detection splits ramps exactly at significant jumps",
 "With jump detection on, the uneven-spacing fitter recursively splits a ramp wherever the largest single or double difference statistic exceeds the threshold for its slope, flags exactly the resultants removed by those splits, and fits the remaining pieces; with detection off no flag is added.",
 ["inputs", "configurations"], "all read patterns, jumps at any place and size, thresholds",
 "Tests inject a jump in fixed places with statistical checks.",
 [RF+"ols_cas22/_jump.pyx"],
 [("recursive splitting", RF+"ols_cas22/_jump.pyx: fit_jumps")],
 observe_at=["returned dq and parameters"])
# ---------------------------------------------------------------- jump
J = "src/stcal/jump/"
prop("C12", "Two-point jump detection flags exactly the outlying first differences",
 "For every ramp, a group is flagged as a jump exactly when its first difference deviates from the median (or iteratively clipped median) of the usable first differences by more than the rejection threshold times the expected noise, with the threshold chosen by how many usable differences exist, saturated and bad groups excluded, and the same decision made whatever the image size or position of the pixel.",
 ["inputs", "configurations"], "all ramps, flags, noise maps, thresholds and numbers of groups",
 "The tests use single-pixel ramps with fixed steps; the iterative rejection depends on the ordering and flags of every group.",
 [J+"twopoint_difference.py"],
 [("iterative clipping", J+"twopoint_difference.py: find_crs"), ("sigma-clip over integrations", J+"twopoint_difference.py")],
 observe_at=["group flags returned"])
prop("C13", "Jump flags spread to neighbours and later groups exactly as configured",
 "When neighbour flagging is on, each primary jump whose significance lies within the configured range also flags its four direct neighbours in the same group, and no others, never onto saturated or unusable samples; when after-jump flagging is on, every jump above an amplitude threshold also flags the configured number of following groups of the same integration. Image edges and the last groups are handled without wrap-around.",
 ["inputs", "configurations"], "all jump placements including corners, edges, last groups, several integrations; all settings",
 "Tests check an isolated hit in the interior and a few edges.",
 [J+"twopoint_difference.py"],
 [("neighbour flagging", J+"twopoint_difference.py: flag_four_neighbors"), ("after-jump flagging", J+"twopoint_difference.py: propagate_flags")],
 observe_at=["group flags returned"])
prop("C14", "Jump detection only adds flags and is independent of slicing",
 "Running jump detection never changes the science ramps, never clears a flag that was set on input (a jump flag on a sample that is also saturated or unusable is redundant and may go), and gives the same flags in every group whether the image is processed in one piece or in any number of row slices, including for hits next to slice boundaries.",
 ["inputs", "configurations"], "all cubes, flags, and degrees of parallelism",
 "Tests compare one hit at one boundary; a slice seam bug shows only for hits at particular rows with particular options.",
 [J+"jump.py"],
 [("slicing and seam flags", J+"jump.py: detect_jumps_data")],
 observe_at=["flags and science data after detection"])
prop("C15", "Large cosmic-ray events: grown footprints of qualifying clusters only",
 "When large-event flagging is on, the pixels flagged around a cluster of jump pixels fill its ellipse grown by the configured factor up to the configured maximum width, only for clusters whose area and saturated core (or nearness to the detector edge) satisfy the configured minima. Large newly saturated cores are grown by the configured width in that and every later group of the integration and, if requested, followed by jump flags in the first groups of the next integration. Frames with no qualifying cluster are unchanged.",
 ["inputs", "configurations"], "all cluster shapes, positions (including detector edges), times and settings",
 "Tests use a few painted squares in the middle of one frame.",
 [J+"jump.py"],
 [("cluster search and growth", J+"jump.py: flag_large_events, make_snowballs, extend_saturation")],
 observe_at=["group flags returned"])
prop("C16", "Shower finding flags only extended emission above threshold",
 "When shower finding is on, samples are flagged only inside grown footprints of convolved excess above the configured signal-to-noise with at least the configured area, in the onset group and the configured number of groups after it, never on saturated samples or reference pixels, and only where dropping them changes the pixel's mean rate by no more than the configured amplitude; uniform or noise-free ramps produce no shower flags, and pre-existing flags are kept.",
 ["inputs", "configurations"], "all extended brightness steps, sizes, positions, settings",
 "Tests use one or two painted blobs.",
 [J+"jump.py"],
 [("extended emission search", J+"jump.py: find_faint_extended")],
 observe_at=["group flags returned, count of showers"])
# ---------------------------------------------------------------- saturation
prop("C17", "Saturation flags are exact, monotone in time and grown by the configured box",
 "For every ramp, a sample is flagged saturated exactly when the pixel, or a pixel within the configured growth distance, has reached its threshold in this or an earlier group of the same integration; samples at or below zero are flagged as below the converter floor and unusable. Pixels without a valid threshold or marked not to be checked are never flagged as primary saturation and are marked as unchecked.",
 ["inputs", "configurations"], "all ramps, thresholds (including NaN), reference flags, growth distances, image shapes, integrations",
 "Tests use tiny images with one saturated pixel.",
 ["src/stcal/saturation/saturation.py"],
 [("forward propagation and growth", "src/stcal/saturation/saturation.py: flag_saturated_pixels, adjacency_sat, _adjacent_pixels")],
 observe_at=["group and pixel flags, zero frame returned"])
prop("C18", "Frame-averaged groups before saturation and zero frames are screened",
 "When groups average several frames, the group before a saturated one is additionally marked unusable exactly when the averaged samples could hide a saturated frame according to the read pattern, never otherwise; the zero frame is zeroed exactly at the pixels saturated in it or unusable. Without frame averaging no such extra flag appears.",
 ["inputs", "configurations"], "all read patterns, ramps that saturate part-way through a group, zero frames",
 "Tests cover two fixed ramps.",
 ["src/stcal/saturation/saturation.py"],
 [("backward pass on read pattern", "src/stcal/saturation/saturation.py: flag_saturated_pixels")],
 observe_at=["group flags, zero frame returned"])
# ---------------------------------------------------------------- linearity
prop("C19", "Linearity correction is the per-pixel polynomial except where it must not apply",
 "Every sample is replaced by its pixel's correction polynomial evaluated at that sample, except that saturated groups and pixels with missing, degenerate or flagged coefficients are left exactly unchanged; the latter are marked as uncorrected in the pixel flags, reference flags are merged and no other flag changes. Zero frames follow the same rule and keep their zeros.",
 ["inputs", "configurations"], "all ramps, coefficient sets of any order, NaN/zero coefficients, flags, zero frames",
 "Tests evaluate the polynomial for one or two pixels.",
 ["src/stcal/linearity/linearity.py"],
 [("polynomial correction", "src/stcal/linearity/linearity.py: linearity_correction, apply_polynomial, correct_for_NaN, correct_for_zero, correct_for_flag")],
 observe_at=["output ramp, pixel flags, zero frame"])
prop("C20", "Read-averaged linearity correction undoes the nonlinear averaging",
 "When inverse coefficients and a read pattern are supplied, a ramp produced by averaging individually non-linear reads of a constant-rate source is restored to the linear ramp to the documented accuracy, equals the read-by-read model for any ramp, and is independent of how the image is tiled; where groups hold single reads it reduces to the ordinary correction.",
 ["inputs", "configurations"], "all constant-rate ramps, read patterns, coefficient pairs, image heights around the tile size",
 "Tests use one small image and pattern.",
 ["src/stcal/linearity/linearity.py"],
 [("read-level correction", "src/stcal/linearity/linearity.py: linearity_correction with ilin_coeffs / read_pattern")],
 observe_at=["output ramp"])
# ---------------------------------------------------------------- dark
prop("C21", "Dark frames are averaged or extracted to match the science groups",
 "For every pair of readout patterns, the dark used for science group g is the mean of exactly those dark frames (single-frame darks) that the science group averaged (gaps skipped), for every integration of the dark that the science file uses, and is the untouched dark when the patterns already match; darks with fewer frames than needed are extrapolated at the constant rate of their last two groups.",
 ["inputs", "configurations"], "all (frames per group, gap) combinations and group counts, 3-D and 4-D darks",
 "Tests use two or three patterns.",
 ["src/stcal/dark_current/dark_sub.py"],
 [("frame averaging", "src/stcal/dark_current/dark_sub.py: average_dark_frames_3d, average_dark_frames_4d"), ("extrapolation", "src/stcal/dark_current/dark_sub.py: extrapolate_dark")],
 observe_at=["averaged dark arrays, corrected science"])
prop("C22", "Dark subtraction uses the right integration, treats NaN as zero and merges flags",
 "Every science sample has the matching dark sample subtracted (NaN dark counts as zero), using the dark integration with the same absolute number or the last one for later integrations even when the science file is a segment starting at a later integration; dark flags are added to the pixel flags. When the dark cannot be matched (it has more frames per group or longer gaps) the science data are returned unchanged with the skip reported, and the science input is not modified.",
 ["inputs", "configurations"], "all integration counts, segment starts, dark dimensions, NaN patterns, flags",
 "Tests use whole exposures with two or three integrations.",
 ["src/stcal/dark_current/dark_sub.py"],
 [("subtraction", "src/stcal/dark_current/dark_sub.py: do_correction_data, subtract_dark")],
 observe_at=["science data, pixel flags, status"])
# ---------------------------------------------------------------- outlier detection
O = "src/stcal/outlier_detection/"
prop("C23", "Median stacking is the NaN-ignoring median, on disk or in memory",
 "For every stack of images with NaNs and masks, the median image equals the per-pixel median of the valid values, whether computed in memory or in buffered pieces on disk with any buffer size, and whatever the order in which images were added.",
 ["inputs", "histories", "configurations"], "all image stacks, dtypes, buffer sizes, add orders",
 "Tests use one shape and one buffer size.",
 [O+"median.py"],
 [("on-disk sectioned median", O+"median.py: _OnDiskMedian, _DiskAppendableArray, MedianComputer")],
 observe_at=["median image"])
prop("C24", "Outlier flags are exactly the samples beyond the noise and gradient limits",
 "A pixel is flagged as outlier exactly when its absolute difference from the reference image exceeds the signal-to-noise limit times its error (NaN error as zero); for resampled references it must exceed the gradient-scaled limit and the second limit in combination with a neighbouring primary detection. NaN data never flag and inputs are unchanged.",
 ["inputs", "configurations"], "all images, errors, reference images, limits",
 "Tests inject one cosmic ray.",
 [O+"utils.py"],
 [("comparison", O+"utils.py: flag_crs, flag_resampled_crs, _abs_deriv")],
 observe_at=["flag masks"])
prop("C25", "Outlier helpers: gated median filter, weight threshold and blotting",
 "The filtered array equals the NaN-ignoring median over the centred (odd) kernel with zeros beyond the edges; the weight threshold equals the configured fraction of the 3-sigma clipped mean of the finite non-zero weights; and blotting a reference image onto an exposure interpolates it linearly at the sky position of each exposure pixel, with the fill value outside the reference or the exposure's valid area.",
 ["inputs", "configurations"], "all cubes and kernels, weight maps, pairs of coordinate transforms",
 "Tests use a few fixed arrays.",
 [O+"utils.py"],
 [("medfilt, compute_weight_threshold, gwcs_blot", O+"utils.py")],
 observe_at=["returned arrays"])
# ---------------------------------------------------------------- resample
R = "src/stcal/resample/"
prop("C26", "Resampling weights zero exactly the bad pixels and follow the chosen scheme",
 "For every exposure, weighting type and set of accepted flags, a pixel's weight is zero exactly when it carries an unaccepted flag, and otherwise equals the exposure time, the inverse read-noise variance (zero where it is not finite and positive), or one, as configured; unusable weighting input falls back to one with no other change.",
 ["inputs", "configurations"], "all flag images, good-bit specifications, variance maps, exposure times",
 "Tests use a few flags and one specification syntax.",
 [R+"utils.py"],
 [("weight maps", R+"utils.py: build_driz_weight, build_mask, get_tmeasure")],
 observe_at=["weight map, mask"])
prop("C27", "The pixel map between two images composes their coordinate transforms",
 "For every pair of input and output coordinate systems, the pixel map gives for each input pixel the output position of its sky position to a small fraction of a pixel, is NaN outside the input's valid area unless that check is disabled, and agrees between the exact and the interpolated (stepped) computation within tolerance on smooth transforms.",
 ["inputs", "configurations"], "all pairs of projections, image shapes, step sizes, bounding box choices",
 "Tests use two or three transforms.",
 [R+"utils.py"],
 [("pixel map", R+"utils.py: calc_pixmap")],
 observe_at=["pixel map"])
prop("C28", "Coadded images are weighted means with faithful context and order independence",
 "For exposures on the output grid, each output pixel is the weighted mean of exactly the good contributing input pixels (in the output's units), its weight is the sum of theirs, the context bitmap names exactly the contributing exposures and pixels nothing contributed to hold the fill value. The result does not depend on the order in which exposures are added, apart from the labels in the context bitmap, and total flux is preserved under shifts and rotations.",
 ["inputs", "histories", "configurations"], "all sets of 1-40 exposures, flags, weights, offsets, kernels, orders",
 "Tests resample one to three fixed images.",
 [R+"resample.py"],
 [("accumulation", R+"resample.py: Resample.add_model, finalize"), ("intensity conversion", R+"resample.py")],
 observe_at=["output data, weight, context"])
prop("C29", "Coadded variances, errors and exposure metadata add up",
 "For exposures on the output grid, each output variance component equals the weighted propagation of the contributing pixels' variances with the chosen variance weighting, pixels without usable variance do not contribute, the output error is the square root of the summed components, and total exposure and measurement times count each exposure group once. Start and end times are the extremes over those groups (images of one group share their times).",
 ["inputs", "histories", "configurations"], "all sets of exposures, missing or invalid variance maps, groupings, weightings",
 "Tests use two or three identical images.",
 [R+"resample.py"],
 [("variance accumulation", R+"resample.py: resample_variance_arrays, finalize_resample_variance"), ("time accounting", R+"resample.py: update_time, finalize_time_info")],
 observe_at=["output variances, error and time metadata"])
# ---------------------------------------------------------------- skymatch
S = "src/stcal/skymatch/"
prop("C30", "Sky matching recovers known constant backgrounds",
 "For every set of overlapping images that differ only by constant backgrounds, the computed sky values are: each image's own background with the local method, the common minimum with the global method, the differences that equalise overlapping images with the matching method (the extreme one as reference), and the full background with the combined method. Images belonging to one group always receive the same value.",
 ["inputs", "configurations"], "all overlap topologies of 1-6 images, offsets, masks, groups, orders, matching directions",
 "Tests use one or two fixed layouts.",
 [S+"skymatch.py", S+"skyimage.py"],
 [("matching", S+"skymatch.py: skymatch"), ("overlap statistics", S+"skyimage.py: calc_sky, intersection")],
 observe_at=["sky values set on each image"])
prop("C31", "Sky statistics use exactly the valid in-overlap pixels; subtraction agrees",
 "A sky statistic over an image equals the configured clipped statistic of exactly the unmasked pixels within the (optional) overlap polygon; subtracting changes every pixel by exactly the reported sky, once, and only when asked. The input order of images never changes the result.",
 ["inputs", "histories", "configurations"], "all images, masks, overlap regions, statistics settings, input orders",
 "Tests use one mask and rectangular overlap.",
 [S+"skyimage.py", S+"skystatistics.py"],
 [("masked statistic", S+"skyimage.py: calc_sky"), ("statistic", S+"skystatistics.py: SkyStats")],
 observe_at=["sky values, image data, number of pixels used"])
# ---------------------------------------------------------------- alignment
A = "src/stcal/alignment/"
prop("C32", "A combined output frame contains all inputs and honours requested geometry",
 "For every set of input footprints, the constructed output frame contains every input vertex within a pixel (unless the request fixes the reference pixel or the shape, which then decide the extent), has the requested pixel scale and position angle at its reference point or the detector-to-tangent-plane transform that was given, maps the requested reference pixel to the requested sky position, and honours a requested shape; defaults derive from the reference input.",
 ["inputs", "configurations"], "all footprints on the sky (including near the poles and across RA 0), scales, rotations, reference points, shapes",
 "Tests use one footprint near one position.",
 [A+"util.py"],
 [("output frame construction", A+"util.py: wcs_from_sregions, wcs_bbox_from_shape, _calculate_new_wcs")],
 observe_at=["output transform evaluated both ways"])
prop("C33", "Footprint strings, corners and scales agree with the coordinate transform",
 "For every image transform, the footprint string parses back to the sky positions of the image's corners in order with right ascension in [0, 360) up to the printed precision, the fiducial is the direction of the middle of the Cartesian ranges of all footprints whatever their order, and the measured pixel scale and rotation equal those of the transform.",
 ["inputs"], "all projections, positions, scales, rotations, parities, shapes",
 "Tests check one position.",
 [A+"util.py"],
 [("region strings", A+"util.py: compute_s_region_imaging, compute_s_region_keyword, sregion_to_footprint"), ("fiducial, scale and rotation", A+"util.py: compute_fiducial, compute_scale, calc_rotation_matrix")],
 observe_at=["strings and numbers returned"])
prop("C34", "Combining footprints yields the outline of their union",
 "For every set of footprints in a frame, the combined region string describes the union of the footprints (clipped to the image, when one is given): every point well inside some footprint is inside the combined region and every point well outside all of them is outside, independent of input order and of duplicates. The outline in pixels has no repeated vertices and none in the middle of a straight edge. (Holes cannot be expressed by the region string and are left open.)",
 ["inputs"], "all sets of 1-8 overlapping, nested, touching or disjoint footprints with any vertex count",
 "Tests use a few fixed squares.",
 [A+"resample_utils.py", A+"util.py"],
 [("union and simplification", A+"resample_utils.py: combine_sregions, _combine_footprints, _simplify_by_angle, _intersect_with_bbox")],
 observe_at=["combined region string"])
# ---------------------------------------------------------------- tweakreg
T = "src/stcal/tweakreg/"
prop("C35", "Alignment recovers injected pointing errors and never hurts on failure",
 "For every set of exposures of a common star field whose pointing is displaced by shifts and rotations within the search limits, relative and absolute alignment bring matched stars to their reference positions to a small fraction of a pixel; when too few stars match, the original coordinate systems stay untouched and the status says so, and a correction beyond the limit is reported as an error. Invalid settings are rejected before anything changes.",
 ["inputs", "configurations"], "all star fields, displacements, fit geometries, group structures",
 "Tests align one fixed field.",
 [T+"tweakreg.py"],
 [("relative and absolute alignment", T+"tweakreg.py: relative_align, absolute_align, _is_wcs_correction_small")],
 observe_at=["aligned transforms, status"])
prop("C36", "Source catalogues are filtered and parsed without losing or inventing sources",
 "Restricting a catalogue to an image keeps exactly the sources strictly inside its bounding box with all their columns; column-name, sky-position and brightness ordering rules give the same catalogue whatever the row order; trimming keeps the requested number of brightest sources and invalid catalogues are rejected with an error.",
 ["inputs"], "all catalogues, column naming, bounding boxes, source counts",
 "Tests use two or three rows.",
 [T+"tweakreg.py", T+"astrometric_utils.py", T+"utils.py"],
 [("catalogue handling", T+"tweakreg.py: filter_catalog_by_bounding_box, _parse_sky_centroid; "+T+"astrometric_utils.py: create_astrometric_catalog")],
 observe_at=["returned tables"])
prop("C37", "Partitioned catalogue cone search equals a brute-force search",
 "For every position, radius and stored catalogue partitioning, the partitioned cone search returns exactly the sources within the radius, each once, with the requested columns and epoch, independent of how sources are distributed over partitions.",
 ["inputs", "configurations"], "all cones (including poles and RA 0), partition levels, source sets",
 "The tests need the network and never run offline.",
 [T+"_s3_catalog.py"],
 [("cone search", T+"_s3_catalog.py")],
 observe_at=["returned table"])
prop("C38", "Catalogue epochs: proper motion and parallax are applied as spherical astrometry",
 "For every source, moving a catalogue position to an epoch equals propagating it along its proper motion (and parallax, with the observer's position) to within the accuracy of the linear formulas, is the identity at the reference epoch with zero parallax, and leaves sources lacking motion data to the documented rule.",
 ["inputs"], "all positions, motions, parallaxes, epochs",
 "Tests need the network or check one star.",
 [T+"_s3_catalog.py", T+"astrometric_utils.py"],
 [("epoch propagation", T+"_s3_catalog.py; "+T+"astrometric_utils.py: get_catalog")],
 observe_at=["returned positions"])
prop("C39", "Pointing keywords rebuilt from a transform reproduce its tangent-plane geometry",
 "For every telescope pointing, updating the header pointing keywords from an (adjusted) transform yields keywords from which an independently built transform reproduces reference position, roll and frame orientation.",
 ["inputs"], "all reference angles, rolls and parities",
 "Tests use one pointing.",
 [T+"utils.py"],
 [("wcsinfo derivation", T+"utils.py: _wcsinfo_from_wcs_transform")],
 observe_at=["wcsinfo values"])
# ---------------------------------------------------------------- misc
prop("C40", "Velocity aberration is the exact relativistic transformation",
 "For every spacecraft velocity below light speed and every target direction, the apparent direction is a unit vector obtained by the relativistic aberration law, reversing the velocity undoes it, zero velocity is the identity and the scale factor is the ratio of Doppler factors; reported angles agree with the vector.",
 ["inputs"], "all velocities and directions including poles",
 "Tests check a few recorded numbers.",
 ["src/stcal/velocity_aberration.py"],
 [("aberration", "src/stcal/velocity_aberration.py: compute_va_effects, compute_va_effects_vector")],
 observe_at=["returned scale and angles"])
prop("C41", "Worker counts are always between one and what is available and useful",
 "For every request (keyword or number) the number of workers is at least one and never more than the number of available cores or of rows to process, and equals the documented fraction of cores rounded down otherwise; unrecognised requests mean one worker.",
 ["inputs", "configurations"], "all request strings, core counts and row counts",
 "Tests enumerate a few strings at fixed core counts.",
 ["src/stcal/multiprocessing.py"],
 [("core selection", "src/stcal/multiprocessing.py: compute_num_cores")],
 observe_at=["returned count"])
prop("C42", "Per-pixel calibration steps commute with pixel rearrangement",
 "Every per-pixel step (ramp fitting by any algorithm, two-point jump detection without neighbour flagging, linearity correction, dark subtraction, saturation flagging without growth) gives each pixel the same result wherever it sits and whatever its neighbours contain: permuting, cropping or replicating the pixels of all inputs permutes, crops or replicates the outputs.",
 ["inputs"], "all cubes, permutations and crops",
 "Tests compare fixed images and never rearrange them; stale state carried from pixel to pixel shows only for particular neighbour sequences.",
 [RF+"src/slope_fitter.c", RF+"likely_fit.py", J+"twopoint_difference.py", "src/stcal/linearity/linearity.py", "src/stcal/dark_current/dark_sub.py", "src/stcal/saturation/saturation.py"],
 [("per-pixel loops and buffers", RF+"src/slope_fitter.c")],
 observe_at=["all outputs"])
prop("C43", "Pixel areas and scale ratios used to convert units follow the coordinates",
 "The mean pixel area of an image is the solid angle of its (usable) area divided by its number of pixels; in a mosaic the pixel scale ratio is the one given, or the output pixel scale (given or measured) over that of the first usable input, and data, variances and errors are scaled by it as their kind requires: imaging variances by 1/ratio^2 and errors by 1/ratio; spectral flux densities by 1/ratio, with variances by ratio and errors by its square root.",
 ["inputs", "configurations"], "all transforms, bounding boxes, scale settings, units and resample modes",
 "Tests use one transform and default ratios.",
 ["src/stcal/resample/utils.py", "src/stcal/resample/resample.py"],
 [("pixel area and scales", "src/stcal/resample/utils.py: compute_mean_pixel_area; src/stcal/resample/resample.py: pixel_scale_ratio, _get_intensity_scale")],
 observe_at=["areas, recorded settings, mosaic arrays"])
prop("C44", "Reference data and coordinate systems can be used again",
 "Whatever exposures were calibrated before with the same reference arrays (gain, read noise, thresholds, coefficients, darks, biases, read patterns), and whatever operations (including rejected ones) were done before on the same coordinate-system objects, every step gives the result it gives with fresh reference objects, and coordinate systems still evaluate as before.",
 ["histories"], "all sequences of exposures sharing reference data and of operations sharing coordinate systems",
 "Tests build everything anew for every call.",
 [RF+"ramp_fit.py", "src/stcal/linearity/linearity.py", "src/stcal/dark_current/dark_sub.py", "src/stcal/saturation/saturation.py", J+"jump.py", "src/stcal/resample/utils.py", "src/stcal/alignment/util.py"],
 [("reference arrays", RF+"ramp_fit.py: ramp_fit_data; src/stcal/linearity/linearity.py: prepare_coefficients"), ("temporary changes of bounding boxes", "src/stcal/resample/utils.py: calc_pixmap")],
 observe_at=["all outputs, coordinate system evaluation"])
prop("C45", "Results do not depend on how the input arrays are stored",
 "Every array step (ramp fits, jump and shower detection, linearity, dark subtraction, saturation, outlier flagging, medians, blotting, resampling) gives the same results for arrays in any byte order and memory layout (as read from files or cut out of larger arrays) as for plain native contiguous arrays.",
 ["inputs", "configurations"], "all mixtures of byte orders, strides and orders of the inputs",
 "Tests use freshly made native arrays.",
 [RF+"ols_fit.py", RF+"src/slope_fitter.c", RF+"ols_cas22_fit.py", J+"jump.py", "src/stcal/outlier_detection/median.py", "src/stcal/resample/resample.py"],
 [("byte order and contiguity handling", RF+"ols_fit.py: endianness_handler; "+RF+"ols_cas22_fit.py")],
 observe_at=["all outputs"])
prop("C46", "Disk-backed medians: bounded memory, kept apart, nothing left behind",
 "A median computed on disk needs at no time more memory than its buffer (at least a row of all images), the median image, single images and a few rows of the stack, however many images are stacked, and the in-place median of a cube needs no copy of the cube. Stacks that share a directory and are filled in turns do not affect each other; images of the wrong shape or type and images beyond the announced number are refused without affecting the stack; and no temporary file is left once all medians are computed. The memory limit watcher raises exactly when the peak of allocations exceeds the limit.",
 ["inputs", "histories", "configurations"], "all stack shapes, buffer sizes, interleaved histories with refused images, limits and units",
 "Tests measure one cube and fill one stack at a time.",
 ["src/stcal/outlier_detection/median.py", "src/stcal/_testing/memory_threshold.py"],
 [("sections sized by the buffer", "src/stcal/outlier_detection/median.py: _OnDiskMedian, nanmedian3D"), ("limit watcher", "src/stcal/_testing/memory_threshold.py: MemoryThreshold")],
 observe_at=["traced peak allocations, medians, refusals, contents of the temporary directory"])

if __name__ == "__main__":
    root = pathlib.Path(__file__).resolve().parent.parent
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        if len(p["title"]) > 80: raise SystemExit((p["id"], p["title"], len(p["title"])))
    (root / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P), "properties")
