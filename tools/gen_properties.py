#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property list)."""
import json, os
P = []
def p(id, title, statement, qtext, why, files, mech, over=("inputs",), state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
                  "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                  "mechanism": [dict(name=a, where=b) for a, b in mech],
                  "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Row-major pixel storage: addressing, isolation of writes, bounds",
  "In an image of width w, height h and c interleaved channels, pixel (x, y) is exactly the c values starting at position (y*w + x)*c of the data, whichever accessor (2-D, linear index, unchecked, mutable) is used and whichever constructor built the image. Writing a pixel changes those c values and no other value, dimension or flag. An out-of-range coordinate, or a pixel slice whose length is not c, panics instead of touching another pixel.",
  "all element types, all dimensions with w*h*c representable in u32, all channel counts, all coordinates in and out of range, all data",
  "tests read a handful of pixels of one 3x3 image; index arithmetic, frame and out-of-range behaviour are quantified over all dimensions and coordinates",
  ["src/image/mod.rs", "src/image/sub_image.rs", "src/error/messages.rs"],
  [("linear index computation", "src/image/mod.rs Image::index, Index/IndexMut"), ("bounds and length checks", "src/error/messages.rs check_xy, check_channels")],
  state=[("data", "channel values, row-major, channels interleaved", "src/image/mod.rs Image")],
  observe=["Image::get_pixel", "Image::set_pixel", "Image::data"])

p("C02", "Whole-image map and apply visit every value once and keep alpha apart",
  "Mapping or applying a function over pixels or channels uses the function's result for each pixel/channel at the same position, in order, with dimensions and alpha flag kept and the channel count equal to what the function produced per pixel. The alpha-aware variants use the first function on colour channels and the second on the last channel of every pixel when the image has alpha, and the first function on everything otherwise. Editing one channel index changes that channel of every pixel and nothing else.",
  "all images, all (pure) functions supplied by the caller, all channel indices",
  "tests use one 2x2 image and the function +5; the property quantifies over every function and every image size",
  ["src/image/mod.rs", "src/image/pixel.rs"],
  [("map_*/apply_*/edit_channel loops", "src/image/mod.rs"), ("Pixel trait on slices", "src/image/pixel.rs")],
  observe=["Image::map_pixels", "Image::map_channels_if_alpha", "Image::apply_pixels_if_alpha", "Image::edit_channel"])

p("C03", "Sub-images and neighbourhoods contain the right pixels in row-major order",
  "A sub-image taken at (x, y) with size w x h presents at its (i, j) the source pixel (x+i, y+j). A 1-D or 2-D neighbourhood of size n centred at (x, y) presents n or n*n pixels in row-major order at offsets -(n/2) onward, where a coordinate outside the image is replaced by the nearest in-range coordinate on that axis (clamp padding). Dimensions, channel count and alpha flag of the result describe that content; an out-of-range centre or origin panics.",
  "all images, centres, sizes (odd and even, larger than the image) and both orientations",
  "tests use 3x3 windows (and one 1-pixel-wide sub-image) only, for which wrong padding and transposed order are invisible",
  ["src/image/mod.rs", "src/image/sub_image.rs"],
  [("get_subimage / get_neighborhood_1d / get_neighborhood_2d", "src/image/mod.rs"), ("SubImage accessors", "src/image/sub_image.rs")],
  observe=["Image::get_subimage", "Image::get_neighborhood_1d", "Image::get_neighborhood_2d", "SubImage::get_pixel", "SubImage::to_vec"])

p("C04", "Pixel iteration enumerates every pixel exactly once with its coordinates",
  "Iterating over an image (an empty one included) yields exactly width*height items; the k-th item is (k mod width, k div width, the pixel at that position), after which the iterator is exhausted and stays exhausted. At every point the size hint equals the number of items still to come.",
  "all images, with no pixels too, and every point of the iteration history",
  "the only test is a documentation example that prints a 2x2 image",
  ["src/image/pixel_iter.rs"],
  [("PixelIter::next state machine", "src/image/pixel_iter.rs")],
  over=("inputs", "histories"), observe=["PixelIter::next", "PixelIter::size_hint"])

p("C05", "Crop, translate and reflect move pixels without altering them",
  "Cropping returns, for every rectangle that lies inside the image (touching the right or bottom edge included), the image whose pixel (i, j) is input pixel (x+i, y+j), and an invalid-argument error for every rectangle that does not. Translating by (x, y) keeps the dimensions, puts input pixel (i-x, j-y) at (i, j) and zero elsewhere. Reflecting keeps the dimensions and reverses the column order (vertical axis) or the row order (horizontal axis).",
  "all element types, dimensions, rectangles and offsets",
  "the transform tests are disabled and only time one photo; edge-touching and empty rectangles and odd sizes are never exercised",
  ["src/transform.rs"], [("crop, translate, reflect loops", "src/transform.rs")],
  observe=["transform::crop", "transform::translate", "transform::reflect"])

p("C06", "Overlay and superimpose change exactly the overlapping rectangle",
  "Overlaying (superimposing) a front image at (x, y) yields an image of the back image's dimensions in which every pixel inside the intersection of the two rectangles is the front pixel (the per-channel blend alpha*back + (1-alpha)*front) and every other pixel equals the back image's. Images with different channel counts, and blend weights outside [0, 1], are rejected with an error; every weight inside [0, 1] is accepted.",
  "all pairs of images, all offsets (including past the edges), all weights",
  "tests are disabled; partial overlaps, offsets beyond the back image and the accepted weight range are never checked",
  ["src/transform.rs", "src/error/messages.rs"], [("overlay, superimpose", "src/transform.rs"), ("check_in_range", "src/error/messages.rs")],
  observe=["transform::overlay", "transform::superimpose"])

p("C07", "Scaling: output size and in-range sampling at the documented positions",
  "Scaling by non-negative factors returns an image of round(w*x_factor) x round(h*y_factor) pixels with the input's channels and alpha flag, and never fails or reads outside the input. Nearest-neighbour output pixels are copies of the input pixel covering the output position; bilinear output interpolates the four surrounding input pixels with weights that favour the nearer pixel; bicubic and Lanczos output is the kernel-weighted sum over the 4x4 (2n x 2n) edge-clamped neighbourhood.",
  "all f32 images, all finite positive factors, all four methods and Lanczos sizes",
  "tests are disabled and use factors 2 and 0.5 on one photo; index rounding fails only for particular size/factor pairs",
  ["src/transform.rs", "src/util/math.rs"], [("interpolate_* functions and scale dispatch", "src/transform.rs"), ("cubic_weighting_fn, lanczos_kernel", "src/util/math.rs")],
  observe=["transform::scale", "transform::scale_lanczos"])

p("C08", "Vectorised paths are memory-safe and agree with the scalar definition",
  "For every image size, the vectorised add-with-saturation and averaging used by brightness, saturation and grayscale conversion produce, byte for byte, what the scalar definition (clamp(v + bias, 0, 255) on the selected colour channels, truncated mean of the colour channels, alpha copied) produces. They never read or write outside the image buffers, and every byte of the output is produced, including the remainder that does not fill a vector.",
  "all u8 images of every size (below, at and above multiples of the vector width), 1-4 channels with and without alpha, all biases in -255..=255",
  "no test runs this code; the outcome depends on size modulo 32/96/128 and on rounding of individual values",
  ["src/simd.rs", "src/tone.rs", "src/colorspace.rs"],
  [("adds_256_u8, adds_n_256_u8, avg_256_u8, avg_alpha_256_u8", "src/simd.rs"), ("runtime dispatch", "src/tone.rs brightness/saturation, src/colorspace.rs rgb_to_grayscale")],
  over=("inputs", "configurations"), observe=["tone::brightness", "tone::saturation", "colorspace::rgb_to_grayscale"])

p("C09", "Tone adjustments apply their formula to colour channels and never touch alpha",
  "Brightness maps each colour channel v to clamp(v + bias, 0, 255), contrast to round(v*gain) clamped to [0, 255], gamma to round((v/max)^gamma * max); alpha values, dimensions and channel count are unchanged. The 256-entry lookup tables behind them hold f(i) at entry i for all i, and the LAB variants change only the L* channel between the two colour-space conversions.",
  "all u8 images with 1-4 channels with or without alpha; all 256 channel values; all bias/gain/gamma/max arguments",
  "tests are disabled and check nothing but run time",
  ["src/tone.rs", "src/util/mod.rs"], [("brightness, contrast, gamma and LAB variants", "src/tone.rs"), ("generate_lookup_table", "src/util/mod.rs")],
  observe=["tone::brightness", "tone::contrast", "tone::gamma", "tone::brightness_lab", "tone::contrast_lab", "util::generate_lookup_table"])

p("C10", "Thresholding and residual follow their per-value definition",
  "Each of the five threshold modes maps every colour value v to its documented piecewise result (compare v > threshold strictly; result one of max, 0, threshold, v), leaves alpha and dimensions alone, and rejects non-grayscale input. The residual of two images of equal shape is the value-by-value difference original - filtered; images of different shape are rejected.",
  "all grayscale f32 images incl. NaN and infinities, all thresholds/max values, all five modes; all image pairs",
  "tests are disabled; equality at the threshold, NaN and shape mismatches are never exercised",
  ["src/filter/mod.rs", "src/error/messages.rs"], [("threshold, residual", "src/filter/mod.rs"), ("check_grayscale, check_equal", "src/error/messages.rs")],
  observe=["filter::threshold", "filter::residual"])

p("C11", "RGB/HSV conversion is total, keeps alpha and follows the hexcone formulas",
  "For every RGB triple the integer conversion yields V = max, S = 255*(max-min)/max (0 for black) and the sextant hue formula, without overflow, division by zero or wrap-around; for every HSV triple the inverse yields RGB whose maximum is V, with S = 0 giving gray. Alpha is carried over unchanged by the u8 conversions and rescaled by 255 in the f32 ones.",
  "all 2^24 triples in each direction, all image sizes, with and without alpha",
  "no test runs; extreme triples (overflow, division) and sextant boundaries need full-domain coverage",
  ["src/colorspace.rs"], [("rgb_to_hsv, hsv_to_rgb, rgb_to_hsv_f32, hsv_to_rgb_f32 closures", "src/colorspace.rs")],
  observe=["colorspace::rgb_to_hsv", "colorspace::hsv_to_rgb"])

p("C12", "Linear filters are the kernel-weighted sum over the clamped neighbourhood",
  "Every linear filter returns an image of the input's shape whose pixel (x, y), per channel, is the sum of kernel[k] times the k-th pixel of the edge-clamped neighbourhood of (x, y). The separable filter equals the vertical 1-D pass followed by the horizontal one, and the box and weighted-average filters are the normalised kernels of the requested size. Even or non-square kernels are rejected with an error.",
  "all f32 images, kernels of every odd size (larger than the image included), both orientations",
  "only a single-neighbourhood kernel application is tested; border handling, kernel orientation and normalisation are not",
  ["src/filter/mod.rs", "src/util/math.rs"], [("filter_1d, unseparable_filter, separable_filter, box/weighted filters", "src/filter/mod.rs"), ("apply_1d_kernel, apply_2d_kernel", "src/util/math.rs")],
  observe=["filter::filter_1d", "filter::unseparable_filter", "filter::separable_filter", "filter::box_filter", "filter::weighted_avg_filter"])

p("C13", "Summed-area tables give exact rectangle sums",
  "For an image of integers, entry (x, y) of the summed-area table is, per channel, the sum of all pixels at coordinates not exceeding (x, y), and the rectangular query returns the sum over every pixel of the inclusive rectangle, for every rectangle inside the image including those touching the top or left edge.",
  "all images with exactly representable sums, all rectangles",
  "one 3x3 table and a few rectangles are tested; the induction over all positions is not",
  ["src/util/mod.rs"], [("generate_summed_area_table, rectangular_intensity_sum", "src/util/mod.rs")],
  observe=["util::generate_summed_area_table", "util::rectangular_intensity_sum"])

p("C14", "Morphology matches its set definition on binary images of every size",
  "On a binary image with a (2r+1) x (2r+1) window, dilation sets a pixel iff some pixel of the window inside the image is set; erosion sets it iff the whole window lies inside the image and is set; gradient sets it iff exactly one of the two does; majority sets it iff more than half of the window pixels inside the image are set. Opening and closing are the two compositions; output values are 0 or 255, an alpha channel is carried over, dimensions are kept, non-grayscale input is rejected, and no radius or size makes them fail.",
  "all binary images, all radii including those exceeding the image",
  "tests are disabled; borders, large radii and large images (where single-precision sums lose exactness) are never exercised",
  ["src/morphology.rs", "src/util/mod.rs"], [("erode, dilate, majority, gradient window sums", "src/morphology.rs"), ("summed-area table", "src/util/mod.rs")],
  observe=["morphology::erode", "morphology::dilate", "morphology::majority", "morphology::gradient", "morphology::open", "morphology::close"])

p("C15", "The median filter returns the true median of every window",
  "Every output channel value of the median filter of radius r is the middle element (rank 2r(r+1)+1 of (2r+1)^2, ascending) of that channel over the edge-clamped (2r+1) x (2r+1) window around the pixel. Dimensions, channels and alpha flag are kept.",
  "all u8 images, all radii, every pixel position (including image borders and boundaries between internally processed column strips)",
  "no median test runs; errors depend on the history of previous rows (incremental histograms) and on the column strip",
  ["src/filter/median.rs"], [("PartialHistograms/MedianHist incremental update and pivot search", "src/filter/median.rs")],
  over=("inputs", "histories"), state=[("partial histograms", "difference histograms around the strip centre", "src/filter/median.rs PartialHistograms")],
  observe=["filter::median_filter"])

p("C16", "The alpha-trimmed mean filter averages exactly the untrimmed ranks",
  "Every output channel value is the rounded mean of the edge-clamped (2r+1) x (2r+1) window after removing its alpha/2 smallest and alpha/2 largest values (counted with multiplicity). An odd alpha, or one that would remove the whole window, is rejected with an error; alpha = 0 gives the plain mean.",
  "all u8 images, radii and admissible even alpha, every pixel position",
  "no test runs; errors depend on the history of previous rows and on tie multiplicities",
  ["src/filter/median.rs"], [("MeanHist", "src/filter/median.rs")],
  over=("inputs", "histories"), observe=["filter::alpha_trimmed_mean_filter"])

p("C17", "Argument validation: documented-invalid arguments give errors, valid ones do not",
  "Each fallible operation returns an invalid-argument error exactly when a documented condition on its arguments is violated (sign, range, parity, squareness, equality of shapes or channel counts, grayscale) and never errors, panics or overflows on the validation itself for any argument value, extreme values included. On error the inputs are unchanged. (A NaN violates no sign or range condition.)",
  "all argument values of the element types involved (full i16, u32, f32 domains incl. NaN)",
  "no test exercises an error path",
  ["src/error/messages.rs", "src/tone.rs", "src/transform.rs", "src/filter/mod.rs", "src/filter/median.rs", "src/util/mod.rs"],
  [("check_odd/even/non_neg/equal/square/in_range/grayscale", "src/error/messages.rs")],
  observe=["tone::brightness", "tone::contrast", "transform::scale", "filter::filter_1d", "filter::box_filter"])

p("C18", "The multithreaded build computes the same images as the sequential one",
  "With the parallel feature enabled, cropping, scaling (all methods), 1-D and 2-D filtering and the bilateral filter return the same result, pixel for pixel and error for error, as the sequential build, independent of thread scheduling.",
  "all inputs of those operations and all schedules of the work items",
  "tests are never built with the feature; each operation has a second, separately written body for it",
  ["src/transform.rs", "src/filter/mod.rs", "src/filter/bilateral.rs", "src/util/math.rs", "src/util/mod.rs"],
  [("rayon variants: per-pixel pure closures collected in order", "src/transform.rs, src/filter/*.rs"), ("get_2d_coords", "src/util/mod.rs")],
  over=("inputs", "schedules", "configurations"), observe=["transform::crop", "transform::scale", "filter::filter_1d", "filter::unseparable_filter", "filter::bilateral_filter"])

p("C19", "File I/O maps colour types faithfully and round-trips pixels",
  "Writing accepts exactly 1/3-channel images without alpha and 2/4-channel images with alpha, encodes the data with the matching colour type and unchanged dimensions, and rejects every other combination without creating a file. Reading reports the channel count and alpha flag that match the decoded 8-bit colour type and rejects other colour types; writing then reading a lossless format returns an equal image.",
  "all image shapes and all colour types of the codec library",
  "no I/O test runs; rejected combinations and 2-channel images are never exercised",
  ["src/io/mod.rs"], [("from_color_type, read, write", "src/io/mod.rs")], observe=["io::read", "io::write"])

p("C20", "Generated kernels and small math helpers meet their definitions",
  "The Gaussian and Laplacian-of-Gaussian generators return, for each odd size, size*size values that equal the defining formula at the offset from the centre and are symmetric under transposition and central reflection, and reject even sizes; the spatial matrix holds at every entry the Gaussian of its distance to the centre. Matrix-vector products, max/min of three or four values, index-to-coordinate conversion and the piecewise kernels equal their mathematical definition for all inputs.",
  "all odd sizes, all parameters, all vectors and matrices, all orderings of arguments (NaN-free for max/min)",
  "a few vector products and max/min orderings are tested; kernel generators are not",
  ["src/util/mod.rs", "src/util/math.rs"], [("generate_*_kernel, generate_spatial_mat, get_2d_coords", "src/util/mod.rs"), ("vector_mul, max_3.. min_4, clamp_zero, cubic/lanczos", "src/util/math.rs")],
  observe=["util::generate_gaussian_kernel", "util::generate_log_kernel", "util::generate_spatial_mat", "util::vector_mul", "util::max_4", "util::get_2d_coords"])

p("C21", "CIE colour conversions apply the standard formulas per pixel and keep alpha",
  "Linearised sRGB, XYZ and L*a*b* conversions compute each output triple only from the same pixel's input triple, by the standard matrix product and piecewise transfer functions with the chosen reference white, in the channel order (X, Y, Z) / (L*, a*, b*); the composite conversions equal the composition of their stages. Alpha, dimensions and channel count are preserved.",
  "all images with 3 colour channels with or without alpha, both reference whites",
  "colour tests are disabled and check nothing numerically",
  ["src/colorspace.rs", "src/util/mod.rs", "src/util/math.rs", "src/util/constants.rs"],
  [("*_f32 conversions", "src/colorspace.rs"), ("vector_mul_mut, xyz_to_lab_fn, lab_to_xyz_fn", "src/util/math.rs")],
  observe=["colorspace::srgb_to_xyz_f32", "colorspace::xyz_to_lab_f32", "colorspace::lab_to_srgb_f32"])

p("C22", "Channel type conversions act value by value",
  "Converting an image between channel types keeps dimensions, channel count and alpha flag and converts each value on its own: widening conversions preserve the value, conversions to u8 round to nearest (ties away from zero) and saturate to [0, 255], and the scaling conversions apply the affine map between the two ranges. Conversion u8 -> f32/f64 -> u8 is the identity.",
  "all images and all channel values of the source type",
  "no test covers the conversions",
  ["src/image/from_impl.rs", "src/convert.rs"], [("From impls", "src/image/from_impl.rs"), ("scale_channels, f32_to_u8_scale, u8_to_f32_scale", "src/convert.rs")],
  observe=["Image::from", "convert::scale_channels"])

p("C23", "Histogram equalisation uses the true cumulative distribution of lightness",
  "For each quantised L* value occurring in the image, the percentile table holds the fraction of pixels whose quantised L* does not exceed it: the table has exactly the occurring values as keys, is non-decreasing, lies in (0, 1] and reaches 1 at the largest key. Equalisation replaces L* by alpha*100*percentile + (1-alpha)*L* and leaves a*, b* and alpha as they were in L*a*b*.",
  "all images, precisions and alpha in [0, 1]",
  "the test is disabled and checks nothing",
  ["src/util/mod.rs", "src/tone.rs"], [("generate_histogram_percentiles", "src/util/mod.rs"), ("histogram_equalization", "src/tone.rs")],
  observe=["util::generate_histogram_percentiles", "tone::histogram_equalization"])

p("C24", "The bilateral filter is the normalised range- and distance-weighted mean",
  "Each L*a*b* output value is the mean of the edge-clamped window values weighted by the product of the spatial Gaussian of the distance to the window centre (the centre included) and the range Gaussian of the value difference. Any non-negative parameters with positive spread yield an image of the input's shape without failing, whatever window size they imply; a constant image stays constant up to colour-conversion rounding.",
  "all images and all positive range/spatial parameters",
  "the test is disabled; non-integer spreads and isolated pixels are never exercised",
  ["src/filter/bilateral.rs", "src/util/mod.rs", "src/util/math.rs"], [("bilateral_filter, bilateral_direct_pixel", "src/filter/bilateral.rs"), ("generate_spatial_mat, gaussian_fn", "src/util")],
  observe=["filter::bilateral_filter"])

p("C25", "Shear moves every pixel to its sheared position inside the enlarged canvas",
  "Shearing returns an image of width w + trunc(|h*shear_x|) and height h + trunc(|w*shear_y|) in which every input pixel is drawn at the truncated position of (x - shear_x*y, y - shear_y*x), shifted right/down by the offset when the respective factor is positive, later pixels overwriting earlier ones, and positions not hit are zero. A position that rounding carries to the far edge is drawn at the last column (row); no factor whose canvas fits makes shearing fail.",
  "all f32 images and shear factors",
  "the test is disabled and only times four calls",
  ["src/transform.rs"], [("shear", "src/transform.rs")], observe=["transform::shear"])

p("C26", "Edge detectors: gradient magnitude and normalisation",
  "The derivative-mask operators return, for each pixel, the square root of the sum of the squares of the two separable responses (kernels swapped between the two), Prewitt and Sobel being the instances with their published masks, and the Laplacian operators are the correlation with their kernel. Normalising a Laplacian maps the minimum of the image to 0 and the maximum to 255 and every value affinely in between, rounding to u8; non-grayscale input to the derivative masks and the normalisation is rejected.",
  "all grayscale f32 images, all odd kernels of equal length",
  "tests are disabled and check nothing",
  ["src/filter/edge.rs", "src/util/constants.rs"], [("derivative_mask, prewitt, sobel, laplacian, normalize_laplacian", "src/filter/edge.rs")],
  observe=["filter::derivative_mask", "filter::sobel", "filter::prewitt", "filter::normalize_laplacian"])

p("C27", "Rotation shows each pixel at its rotated position",
  "Rotating an image by any angle succeeds. The result keeps channels and alpha flag, its width and height are the extents of the rotated rectangle rounded to the nearest integer, and each of its pixels is a copy of the input pixel that contains the pixel's centre rotated back around the centre of the input (counterclockwise rotation), or zero when that position lies outside the input; rotating by multiples of 90 degrees permutes the pixels exactly.",
  "all f32 images and all angles",
  "the test is disabled and only times three angles",
  ["src/transform.rs"], [("rotate", "src/transform.rs")], observe=["transform::rotate"])

p("C28", "Kernel separation reconstructs the kernel",
  "separate_kernel terminates without failure on every square kernel. When it reports a kernel separable, both returned vectors have the length of a side and the outer product of the vertical and the horizontal vector equals the kernel up to rounding (relative to its largest entry). It reports a kernel inseparable only if the kernel is zero or the product of the column and the row through a value of the largest magnitude misses an entry by more than a millionth of that value. linear_filter, whether it takes the pair or the kernel, equals filtering with the kernel up to rounding.",
  "all square f32 kernels of odd size",
  "no test covers separation",
  ["src/util/math.rs", "src/filter/mod.rs"], [("separate_kernel", "src/util/math.rs"), ("linear_filter dispatch", "src/filter/mod.rs")],
  observe=["util::separate_kernel", "filter::linear_filter"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P))
