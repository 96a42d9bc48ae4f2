"""Which contracts state which property."""
I = 'image::Image::'
B = 'image::<BaseImage for Image>::'
P = 'image::pixel::<Pixel for [T]>::'
S = 'image::sub_image::'

TRUSTED = [
    'Verus and Z3 (verifier soundness), rustc (both compile the same text)',
    'extractor /verif/extract: syntactic rewriting of /repo/src (for loops to while loops, casts and operators to calls with the same meaning; every rewrite is listed in DESIGN.md)',
    'vstd specifications of Vec, slices, Option, Result and integer arithmetic',
    'proofs/00_spec.rs axioms: conversion of u8 literals to the built-in channel types, cloning a Copy value copies it',
]
ASSUME = [
    'usize is 64 bits wide',
    'images are well formed: data.len() == width*height*channels, width*height*channels <= u32::MAX, channels >= 1',
    'memory allocation succeeds',
]
FLOAT = 'proofs/00_spec.rs: f32 operators are deterministic total functions of their operands (values uninterpreted)'
FLOATI = 'proofs/00_spec.rs float_int_axioms: integers up to 2^24 are exact in f32 (evaluated for every one of them by the witness sub-check axioms)'
SIMD = 'proofs/01_rt.rs: contracts of the AVX2 intrinsics used (Intel documentation), pointer loads and stores rewritten to slice accesses with the bounds as precondition (each compared with the instruction on random vectors by the witness sub-check axioms)'

PROPS = {
    'C01': dict(roots=[I + x for x in ('from_slice', 'from_vec', 'from_vec_of_vec', 'from_vec_of_slice', 'blank', 'empty', 'index', 'data', 'data_mut',
                                       'get_pixel_unchecked', 'get_pixel_mut', 'get_pixel_mut_unchecked', 'set_pixel', 'set_pixel_indexed')]
                + [B + 'info', B + 'get_pixel', 'image::<Index for Image>::index', 'image::<IndexMut for Image>::index_mut',
                   'error::messages::check_channels', 'error::messages::check_xy']
                + ['image::ImageInfo::' + x for x in ('new', 'wh', 'whc', 'whca', 'channels_non_alpha', 'size', 'full_size')],
                note='Every accessor and constructor of Image is proved against the row-major addressing contract for all sizes and channel types, writes included (frame: all other pixels, dimensions and flags unchanged).'),
    'C02': dict(roots=[I + x for x in ('map_pixels', 'map_pixels_if_alpha', 'map_channels', 'map_channels_if_alpha', 'apply_pixels', 'apply_pixels_if_alpha',
                                       'apply_channels', 'apply_channels_if_alpha', 'edit_channel')] + [P + x for x in ('alpha', 'channels_without_alpha', 'map_all', 'map_alpha', 'apply', 'apply_alpha', 'is_black', 'is_black_alpha')],
                note='Loop invariants over every map/apply method and the Pixel trait, quantified over the closure.'),
    'C03': dict(roots=[I + x for x in ('get_subimage', 'get_neighborhood_1d', 'get_neighborhood_2d')] + [S + 'SubImage::new', S + 'SubImage::data', S + 'SubImage::to_vec', S + '<BaseImage for SubImage>::info', S + '<BaseImage for SubImage>::get_pixel', S + '<Index for SubImage>::index'],
                assume=['neighbourhoods: width, height <= i32::MAX and coordinate + size <= i32::MAX'],
                note='Contracts give every pixel of the result for all origins and sizes.'),
    'C04': dict(roots=['image::pixel_iter::PixelIter::new', 'image::pixel_iter::<Iterator for PixelIter>::next', 'image::pixel_iter::<Iterator for PixelIter>::size_hint',
                       "image::pixel_iter::<IntoIterator for &'a Image<T>>::into_iter"],
                note='State invariant of the iterator: next yields position pos and advances it by one, exhausted exactly at width*height, size hint is the rest.'),
    'C05': dict(roots=['transform::crop', 'transform::translate', 'transform::reflect'], note='Every output pixel stated as an input pixel or zero; crop proved in both the sequential and the rayon body.', variants=['simd', 'simd,rayon']),
    'C06': dict(roots=['transform::overlay', 'transform::superimpose'], trusted=[FLOAT], note='Pixels inside and outside the front rectangle, dimensions and errors; the blend is stated over f32 operators.'),
    'C07': dict(roots=['transform::scale', 'transform::scale_lanczos'] + ['transform::scale_' + x for x in ('nearest_neighbor', 'bilinear', 'bicubic', 'lanczos_resampling')], trusted=[FLOAT, FLOATI], variants=['simd', 'simd,rayon'],
                assume=['image sides up to 2^24', 'scale factors positive with an output that fits', 'lanczos size below 0x4000'],
                note='Output size and, for every method, every output pixel as the published resampling formula over f32 operators; all sampling positions proved inside the image.'),
    'C10': dict(roots=['filter::threshold', 'filter::residual'], trusted=[FLOAT], assume=['residual: differences fit the channel type'],
                note='Every value of the five threshold modes and of the residual, shapes and errors.'),
    'C12': dict(roots=['filter::' + x for x in ('filter_1d', 'separable_filter', 'unseparable_filter', 'linear_filter', 'box_filter', 'weighted_avg_filter', 'gaussian_blur', 'sharpen', 'unsharp_masking')]
                + ['util::math::separate_kernel', 'util::math::apply_1d_kernel', 'util::math::apply_2d_kernel', I + 'get_neighborhood_1d', I + 'get_neighborhood_2d'], trusted=[FLOAT, FLOATI], variants=['simd', 'simd,rayon'],
                assume=['kernels of at most 2^24 values, neighbourhood coordinates fit i32'],
                note='Every output channel value as the kernel-weighted left-to-right f32 sum over the edge-clamped neighbourhood, for every kernel and both builds; shapes and errors.'),
    'C13': dict(roots=['util::generate_summed_area_table', 'util::rectangular_intensity_sum'], trusted=[FLOAT, FLOATI, 'proofs/00_spec.rs int_axioms: meaning of the integer channel types; f32 sums of integers up to 2^24 are exact'],
                assume=['channel values are integers whose absolute sum fits the channel type'],
                note='Entry (x, y) proved equal to the recursive rectangle sum, and the query to the sum over its rectangle, for every rectangle and every channel type with exact integer arithmetic.'),
    'C20': dict(roots=['util::generate_gaussian_kernel', 'util::generate_log_kernel', 'util::generate_spatial_mat', 'util::generate_lookup_table', 'util::xyz_tristimulus_vals', 'util::get_2d_coords']
                + ['util::math::' + x for x in ('vector_mul', 'vector_mul_mut', 'max_3', 'min_3', 'max_4', 'min_4', 'distance', 'gaussian_fn', 'cubic_weighting_fn', 'xyz_to_lab_fn', 'lab_to_xyz_fn', 'clamp_zero', 'sinc_norm', 'lanczos_kernel')], trusted=[FLOAT, FLOATI, 'proofs/00_spec.rs float_sym_axioms'],
                assume=['kernel sizes up to 46340, spatial matrices up to 65535', 'no NaN for max/min'],
                note='Kernels entry by entry as the defining formula over f32 operators, symmetry included; helpers against their mathematical definition.'),
    'C25': dict(roots=['transform::shear'], trusted=[FLOAT, FLOATI], assume=['the canvas fits u32'], note='Canvas size and every pixel, over f32 operators.'),
    'C27': dict(roots=['transform::rotate'], trusted=[FLOAT, FLOATI, 'proofs/00_spec.rs float_below_axioms: a float below an integer n <= 2^24 truncates to less than n', 'sin_cos and to_radians are deterministic total functions'],
                assume=['image sides up to 2^24', 'the rotated picture fits the image type'],
                bounded=['multiples of 90 degrees permute the pixels exactly (images up to 2000 x 3, angles -450..810)'],
                note='Canvas size and every pixel (input pixel under the rotated-back centre, or zero) over f32 operators, every read inside the input.'),
    'C28': dict(roots=['util::math::separate_kernel', 'filter::linear_filter'], trusted=[FLOAT, FLOATI], variants=['simd', 'simd,rayon'],
                assume=['square kernels of at most 2^24 values'],
                note='Each product of the returned factors is within a millionth of the magnitude of one kernel entry of the kernel; a kernel is given up only when such a product misses an entry; linear_filter is the correlation with the kernel or with such a pair.'),
    'C22': dict(roots=['convert::scale_channels', 'convert::f32_to_u8_scale', 'convert::u8_to_f32_scale']
                + ['image::from_impl::<From<Image<%s>> for Image<%s>>::from' % p for p in (('u8', 'f32'), ('u8', 'f64'), ('u16', 'f64'), ('u32', 'f64'), ('u64', 'f64'), ('u128', 'f64'), ('usize', 'f64'), ('f32', 'f64'), ('f64', 'u8'), ('f32', 'u8'))],
                trusted=[FLOAT, FLOATI], note='Every value of every conversion; u8 -> float -> u8 is the identity as a lemma over the same conversion functions.'),
    'C26': dict(roots=['filter::edge::' + x for x in ('derivative_mask', 'prewitt', 'sobel', 'sobel_weighted', 'laplacian', 'laplacian_of_gaussian', 'normalize_laplacian')],
                trusted=[FLOAT, FLOATI, 'proofs/01_rt.rs slice_min_f32/slice_max_f32: iter().min_by/max_by(partial_cmp) returns a least/greatest element'], variants=['simd', 'simd,rayon'],
                assume=['normalisation: no NaN', 'Laplacian of Gaussian sizes up to 4096, window coordinates fit i32'],
                note='Every output value of the operators as the formula over the two separable responses or the kernel correlation, published masks and errors included.'),
    'C14': dict(roots=['morphology::' + x for x in ('erode', 'dilate', 'majority', 'open', 'close', 'gradient')], trusted=['proofs/00_spec.rs int_axioms: meaning of the integer channel types', 'i64::saturating_mul saturates'],
                note='Set definitions of the six operations proved for every binary image, size and radius (summed-area sums against counts of set pixels); for other 8-bit images: no failure, shape kept.'),
    'C08': dict(roots=['simd::' + x for x in ('adds_256_u8', 'adds_n_256_u8', 'deinterleave_3_256_u8', 'deinterleave_4_256_u8', 'avg_3_256_u8', 'avg_256_u8', 'avg_alpha_256_u8', 'avg_checked_256_u8')]
                + ['tone::brightness', 'tone::brightness_rgb_norm', 'tone::saturation', 'tone::saturation_norm', 'colorspace::rgb_to_grayscale', 'colorspace::rgb_to_grayscale_norm'], trusted=[FLOAT, SIMD],
                assume=['saturation: three colour channels', 'adds_n: 3 channels without or 4 with alpha (what saturation passes)', 'grayscale: 1 to 128 colour channels'],
                note='Every output byte of the vector paths proved equal to the scalar definition, every vector load and store proved inside its buffer, for all image sizes; both dispatch branches satisfy one contract, and so does the build without SIMD.', variants=['simd', 'scalar']),
    'C09': dict(roots=['tone::' + x for x in ('brightness', 'brightness_rgb_norm', 'brightness_lab', 'contrast', 'contrast_lab', 'saturation', 'saturation_norm', 'gamma')] + ['util::generate_lookup_table', I + 'edit_channel', I + 'map_channels_if_alpha'],
                trusted=[FLOAT, FLOATI, SIMD], assume=['LAB and HSV variants: three colour channels'],
                note='Every output channel value as the documented formula, alpha and shape unchanged; the LAB variants as the composition of the two conversions with the change of L* alone.', variants=['simd', 'scalar']),
    'C11': dict(roots=['colorspace::' + x for x in ('rgb_to_hsv', 'hsv_to_rgb', 'rgb_to_hsv_f32', 'hsv_to_rgb_f32')], trusted=[FLOAT, FLOATI],
                assume=['three colour channels'],
                note='Integer conversions proved equal to the hexcone formulas without overflow; lemmas: the hue lies in range, the inverse has maximum V and is gray for S = 0. The f32 versions over f32 operators.'),
    'C21': dict(roots=['colorspace::' + x for x in ('linearize_srgb_f32', 'unlinearize_srgb_f32', 'srgb_lin_to_xyz_f32', 'xyz_to_srgb_lin_f32', 'xyz_to_lab_f32', 'lab_to_xyz_f32', 'srgb_to_xyz_f32', 'xyz_to_srgb_f32', 'srgb_to_lab_f32', 'lab_to_srgb_f32', 'rgb_to_grayscale_f32')]
                + ['util::xyz_tristimulus_vals', 'util::math::vector_mul_mut', 'util::math::xyz_to_lab_fn', 'util::math::lab_to_xyz_fn'], trusted=[FLOAT, FLOATI], assume=['three colour channels'],
                note='Every output triple as matrix product / transfer function of the same pixel over f32 operators, composites as compositions, alpha and shape.'),
    'C18': dict(roots=['transform::crop', 'transform::scale', 'transform::scale_lanczos', 'filter::filter_1d', 'filter::unseparable_filter', 'filter::bilateral::bilateral_filter']
                + ['transform::scale_' + x for x in ('nearest_neighbor', 'bilinear', 'bicubic', 'lanczos_resampling')], variants=['simd', 'simd,rayon'], dump=True,
                trusted=[FLOAT, FLOATI, 'proofs/01_rt.rs par_map_range: a rayon parallel map over a range collects the results in the order of the range, and calls the closure only (data-race freedom is the Rust type system\'s)'],
                assume=['the preconditions of C05, C07, C12 and C24'],
                note='Both bodies of every function that has a parallel variant are proved against one contract that determines the error and every output value as a function of the arguments.'),
    'C15': dict(roots=['filter::median::median_filter', 'filter::median::process_cols_med', 'filter::median::init_cols_med', 'filter::median::process_row_med'],
                trusted=[FLOAT, FLOATI, 'proofs/00_spec.rs float_cols_axioms: powf(r, 2/3) is at most r for an integer r in 1..=65536 (decided for all of them by the witness)'],
                assume=['radius up to 20000, sides up to 0x70000000'],
                note='Every output value proved to be the median of its window (edge-clamped) through the invariant of the column and kernel histograms: cached counts equal the multiset of the window, for every image, channel count and radius.'),
    'C16': dict(roots=['filter::median::alpha_trimmed_mean_filter', 'filter::median::process_cols_mean', 'filter::median::init_cols_mean', 'filter::median::process_row_mean'],
                trusted=[FLOAT, FLOATI, 'proofs/00_spec.rs float_cols_axioms: powf(r, 2/3) is at most r for an integer r in 1..=65536 (decided for all of them by the witness)'],
                assume=['radius up to 20000, sides up to 0x70000000'],
                note='Every output value proved to be the rounded mean of the ranks alpha/2 .. n-alpha/2 of its window, for every image, radius and even alpha below the window size.'),
    'C17': dict(roots=['error::messages::check_' + x for x in ('odd', 'even', 'non_neg', 'equal', 'square', 'in_range', 'grayscale')]
                + ['tone::' + x for x in ('brightness', 'brightness_lab', 'contrast', 'contrast_lab', 'saturation', 'gamma', 'histogram_equalization')]
                + ['transform::' + x for x in ('crop', 'superimpose', 'overlay', 'scale', 'scale_lanczos', 'translate', 'reflect', 'shear', 'rotate')]
                + ['util::generate_gaussian_kernel', 'util::generate_log_kernel', 'util::generate_spatial_mat', 'convert::scale_channels']
                + ['util::math::' + x for x in ('vector_mul', 'vector_mul_mut', 'apply_1d_kernel', 'apply_2d_kernel', 'gaussian_fn')]
                + ['filter::' + x for x in ('filter_1d', 'separable_filter', 'unseparable_filter', 'linear_filter', 'box_filter', 'weighted_avg_filter', 'gaussian_blur', 'sharpen', 'unsharp_masking', 'threshold', 'residual')]
                + ['filter::edge::' + x for x in ('derivative_mask', 'prewitt', 'sobel', 'sobel_weighted', 'laplacian', 'laplacian_of_gaussian', 'normalize_laplacian')]
                + ['morphology::' + x for x in ('erode', 'dilate', 'majority', 'open', 'close', 'gradient')]
                + ['filter::median::median_filter', 'filter::median::alpha_trimmed_mean_filter', 'filter::bilateral::bilateral_filter'],
                trusted=[FLOAT, FLOATI], variants=['simd', 'simd,rayon'],
                assume=['the preconditions of the properties of the same functions, for arguments that are valid; the range checks come before them'],
                note='Every error condition is a postcondition of the function: Err exactly for the documented-invalid arguments, Ok for all the others.'),
    'C19': dict(roots=['io::from_color_type', 'io::read', 'io::write'], trusted=['proofs/02_ext.rs: contracts of the image crate (open, decode, dimensions, color, as_bytes, from_raw, save)'],
                assume=['the decoded image has at most u32::MAX values'], bounded=['writing and reading back real PNG/BMP files (the codec itself is outside the contracts): generated images in a scratch directory'],
                note='Colour type, shape and data handed to the encoder or taken from the decoder, for every image; a rejected combination reaches no call that could create the file (precondition on save).'),
    'C23': dict(roots=['util::generate_histogram_percentiles', 'tone::histogram_equalization'], trusted=[FLOAT, FLOATI, 'proofs/00_spec.rs float_frac_axioms: f32 division is monotone in the numerator, n/n = 1', 'proofs/01_rt.rs BTreeMap/HashMap stand-ins: finite maps; BTreeMap iterates in ascending order of the keys'],
                assume=['at most i32::MAX pixels; equalisation: three colour channels'],
                note='Table keys and values against the counts over all pixels; monotonicity, (0, 1] and the final 1 as a lemma over the contract; equalisation as the L* update between the two conversions.'),
    'C24': dict(roots=['filter::bilateral::bilateral_filter', 'filter::bilateral::bilateral_direct_pixel', 'util::generate_spatial_mat'], trusted=[FLOAT, FLOATI, 'proofs/00_spec.rs float_sym_axioms'], variants=['simd', 'simd,rayon'],
                assume=['three colour channels, window side at most 65535, coordinate plus window side fits i32'],
                bounded=['constant images stay constant up to colour-conversion rounding (f32 rounding is uninterpreted in the contracts): generated images'],
                note='Every output pixel as the weighted mean over the edge-clamped window in L*a*b* (spatial weight times range weight over f32 operators), errors and shape, in both builds.'),
}
NOT_APPLICABLE = {
}
PENDING = 'no check yet'
