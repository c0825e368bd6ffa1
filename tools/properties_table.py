GEN = 'A test samples a couple of fixed arrays; '

p('P01', 'Power spectra of a field are its normalised squared Fourier amplitudes',
  'For any real 1D, 2D or 3D field in a box with any (possibly unequal) side lengths, the n-dimensional auto power spectrum equals the squared Fourier amplitudes times cell volume squared over box volume, with zero wavenumber at the centre, so it sums to the mean square of the field times the box volume and is unchanged by periodic shifts or a sign flip. '
  'The cross power spectrum of two fields is symmetric and bilinear in them, and equals the auto spectrum when both are the same field. '
  'The radially averaged spectrum in every bin is the plain mean of that n-dimensional spectrum over exactly the modes whose wavenumber lies in the bin, reported with the mode count and bin centre, for integer bin numbers (linear, logarithmic or mixed) and user-given edges, with an optional taper along the last axis.',
  ['inputs', 'configurations'],
  'every real field shape (odd, even, unequal sides), box size in every documented form, binning mode, bin edges and taper',
  GEN + 'a wrong centre for one parity, a wrong side length for one axis, or a lost mode at a bin edge only shows for particular shapes and boxes.',
  ['power_spectrum.py', 'fft_functions.py'],
  [('n-dimensional estimators', 'power_spectrum.py:power_spectrum_nd, cross_power_spectrum_nd'),
   ('mode wavenumbers and radial binning', 'power_spectrum.py:_get_k, _get_kbins, radial_average'),
   ('public 1D estimators', 'power_spectrum.py:power_spectrum_1d, cross_power_spectrum_1d, dimensionless_ps')],
  ['returned spectra, bin centres and mode counts'])

p('P02', 'Anisotropic power spectra average exactly the modes of each angular bin',
  'For any 3D field and any line-of-sight axis, each cell of the (k_perp, k_par) spectrum (optionally tapered) and of the (mu, k) spectrum (auto, cross or weighted) is the mean of the n-dimensional spectrum over exactly the modes in that cell, with the reported number of modes and bin centres, for integer bin numbers and user-given edges, absolute or signed mu, with or without the modes that have no transverse component, and for boxes of any size. Permuting the axes of the field and box together with the line-of-sight axis changes nothing. The anisotropy ratio is the mean of the cells above the mu cut over the mean of those below it, minus one, and the Legendre multipole of order l in every k bin is the sum of P times the l-th Legendre polynomial of mu over exactly the modes of that bin, divided by the sum of the squared polynomial.',
  ['inputs', 'configurations'],
  'every 3D field shape, box, line-of-sight axis, mu/k binning, mode-exclusion and weighting option',
  GEN + 'the excluded modes, axis roles and the edges of mu depend on parity, axis and option combinations no fixed example covers.',
  ['power_spectrum.py', 'power_legendre.py'],
  [('cylindrical binning', 'power_spectrum.py:power_spectrum_2d'),
   ('mu binning', 'power_spectrum.py:mu_binning, _get_mu, _get_nonzero_idx'),
   ('ratio and multipoles', 'power_spectrum.py:anisotropy_ratio_r_mu; power_legendre.py')],
  ['returned spectra, bin centres and mode counts'])

p('P03', 'Gaussian random fields realise the requested power spectrum reproducibly',
  'A Gaussian random field made for a given power-spectrum function, box and seed is real, finite, has the requested shape, is identical whenever the seed is the same and differs between seeds, and its mode power averages to the requested spectrum at every wavenumber and in every direction, with none elsewhere, for odd and even, equal and unequal side lengths in two and three dimensions. Multiplying the requested spectrum by a constant multiplies the field by its square root. A field made to resemble an input field is the field made for the linearly interpolated binned spectrum of that input, with no power outside the binned range. Shuffling the phases of a field leaves the amplitude of every mode as it was and moves whole planes of phases along the first axis.',
  ['inputs', 'configurations'],
  'every shape, box, spectrum amplitude/slope and seed',
  GEN + 'the spectrum can be right for cubes of one parity and wrong elsewhere, and reproducibility is a statement about all seeds.',
  ['gaussian_random_field.py'],
  [('field synthesis', 'gaussian_random_field.py:make_gaussian_random_field'),
   ('cross-correlated synthesis', 'gaussian_random_field.py:make_gaussian_random_field_like_field')],
  ['returned arrays'])

p('P04', 'Bispectra equal the brute-force sum over closed triangles of modes',
  'For any 3D field and (possibly unequal) box, the bispectrum the Bispectrum class reports for a triangle configuration equals the average, over all closed triples of grid modes whose sides lie in the three shells, of the product of the three Fourier amplitudes, times the squared box volume over the cubed number of cells, after any requested taper. The sides, angles and wavenumbers reported are those measured, for linear and logarithmic spacing, general and equilateral configurations, whether the box is given to the class or to the method. It is invariant under periodic shifts of the field and permutations of the axes, and scales (with sign) with the cube of the amplitude.',
  ['inputs', 'configurations'],
  'every field, box, shell width and triangle configuration on small grids',
  GEN + 'there is no bispectrum test at all, and the normalisation depends on the triangle count of each configuration.',
  ['bispectrum.py'],
  [('shell-filtered triple products', 'bispectrum.py')],
  ['returned bispectra and wavenumbers'])

p('P05', 'Cosmological distance, frequency, time and mass conversions are consistent',
  'For every redshift up to 1100 and every flat matter-plus-lambda parameter set, comoving distance, luminosity distance, age and Hubble parameter equal direct integration of the Friedmann equation (the luminosity distance also for curved models), frequencies, wavelengths, angles and virial temperatures equal their defining formulas, for single numbers, lists (of redshifts or distances) and integer or float arrays alike, a single value in giving a single value out. Every inverse (redshift from frequency or, below redshift 99, from distance; mass from virial temperature; comoving from proper length; length from angle) undoes its forward conversion. Distances increase and ages and frequencies decrease with redshift.',
  ['inputs', 'configurations'],
  'redshifts from today to the dark ages, all cosmological parameter values, all input types',
  GEN + 'the existing tests check a few spot values to 0.1 percent at two parameter sets and only for floats.',
  ['cosmo.py', 'const.py', 'conv.py'],
  [('distance integrals and inverse tables', 'cosmo.py:z_to_cdist, cdist_to_z, luminosity_distance, angular_size'),
   ('frequency and simulation unit conversions', 'cosmo.py, conv.py')],
  ['returned values'])

p('P06', 'Every derived quantity follows the most recently set cosmology and units',
  'After any sequence of calls that set cosmological parameters or the simulation box, every conversion gives the value that follows from the parameters now in force and nothing else: neither the order of the calls nor earlier settings matter, and setting the same parameters again restores the same results. This covers distances, ages, Hubble rate, virial masses, critical, matter and hydrogen densities, mean brightness temperature and optical depth; box length, cell mass and velocity factors follow from the box and parameters in force when the box was last set. Setting a parameter never changes another independent parameter (setting the matter density makes the model flat).',
  ['histories', 'configurations'],
  'all sequences of parameter-setting calls interleaved with conversions',
  'Tests set one cosmology and read one number; stale state only shows after a particular history.',
  ['const.py', 'conv.py', 'cosmo.py', 'temperature.py', 'density_file.py'],
  [('parameter setters', 'const.py:set_*'), ('simulation constants', 'conv.py:set_sim_constants')],
  ['values returned by conversions after each call'],
  state=[dict(name='cosmological parameters', meaning='module-level values every conversion reads', where='src/tools21cm/const.py'),
         dict(name='box constants', meaning='box length, mesh and mass/velocity scale', where='src/tools21cm/conv.py')])

p('P07', 'The brightness temperature cube follows the 21-cm equation cell by cell',
  'For any neutral or ionised fraction, density and spin temperature, each cell of the differential brightness temperature equals the 21-cm radiative-transfer expression evaluated with that cell, its redshift and the cosmological parameters in force only (any of them, flat or curved, set in any order) (optionally with the documented correction of the spin temperature of partially ionised cells), so it is zero where hydrogen is fully ionised, proportional to overdensity and neutral fraction, negative exactly where the spin temperature is below the background, and tends to the saturated form as the spin temperature grows. A lightcone cube uses the redshift of each slice along whichever axis is the line of sight, and arrays, file objects and file names give the same result, with the redshift given or found from any of the files. The mean-signal formula agrees with the average of the cube for uniform density, and the signal of halo masses on a grid is that mean signal times the halo density over the mean baryon density.',
  ['inputs', 'configurations'],
  'all cubes of fractions, densities, temperatures, redshift sequences and input forms',
  GEN + 'the tests use uniform cubes and compare one number.',
  ['temperature.py'],
  [('signal equation', 'temperature.py:calc_dt, calc_dt_full, calc_dt_lightcone, calc_dt_full_lightcone, mean_dt')],
  ['returned cubes'])

p('P08', 'One-point statistics equal their defining moments for every field',
  "Skewness and kurtosis (with the sample variance, as documented), mass-weighted means, mean-subtracted signals, overdensities and per-slice statistics of any field equal the moments computed directly from the definition, along any line-of-sight axis, with the invariances under shift and positive scaling (and the sign flip of skewness). Applying a function along the line of sight gives that function of every slice in order. Pooling the means and sample variances of any number of samples, given as lists, tuples, dictionaries or arrays, gives those of the joint sample. Looking values up in a monotonic table (increasing or decreasing) returns the fractional position at which linear interpolation of the table gives the clamped value back, without changing the caller's values, and upscaling an array interpolates it linearly or by nearest neighbour between its own ends.",
  ['inputs', 'configurations'],
  'all fields, axes and sample partitions',
  GEN + 'tests compare a couple of short arrays.',
  ['statistics.py', 'helper_functions.py'],
  [('moments', 'statistics.py'), ('pooling and lookup helpers', 'helper_functions.py:combined_mean_variance, find_idx')],
  ['returned numbers and arrays'])

p('P09', 'Lightcones interpolate exactly between the bracketing coeval boxes',
  'Every slice of a lightcone built from coeval cubes equals, cell by cell, the interpolation in redshift (linear, step at the midpoint, or the documented sigmoid; cell-by-cell steps take each cell from one of the two, those of low smoothed value in the upper cube changing first, in even steps between the two redshifts) of the same transverse slice of the two cubes whose redshifts bracket it, for scalar and velocity cubes and any line-of-sight axis, with slice positions cycling periodically through the box, and the cubes themselves reproduced at their own redshifts. The result does not depend on how the cubes are supplied (files, directory, text file, dictionary of data or of names, list, reading function, given or inferred redshifts), on their order, or on cubes other than the bracketing ones; the output redshifts start at the requested limit, stay inside the range of the cubes, and are equally spaced by one cell in comoving distance (to second order in the cell) or exactly equally spaced in frequency. Extracted sub-volumes contain exactly the slices between the requested limits (an odd number when asked for), optionally minus the mean of each slice, and coeval cubes taken from a directory at any redshift are the linear interpolation of the two bracketing outputs.',
  ['inputs', 'histories', 'configurations'],
  'all sets of box redshifts, box contents, output redshift sequences, interpolation modes, axes and input forms',
  'There is no lightcone test; errors appear only when the output sequence crosses, skips or ends at a box redshift.',
  ['lightcone.py', 'cosmo.py'],
  [('slice assembly', 'lightcone.py:make_lightcone, _get_interp_slice'),
   ('redshift grids', 'lightcone.py:redshifts_at_equal_comoving_distance, redshifts_at_equal_frequency'),
   ('sub-volumes', 'lightcone.py:get_lightcone_subvolume')],
  ['returned cubes and redshifts'])

p('P10', 'Redshift-space distortion moves signal without creating or losing it',
  'Mapping a brightness-temperature or density volume (a cube or a lightcone with per-slice redshifts) to redshift space along any axis conserves the sum along every line of sight for periodic boxes, whatever the size of the velocities, leaves the volume unchanged for zero velocities, and turns a uniform velocity of whole cells into a periodic shift by the corresponding comoving distance. Each cell is split into equal sub-elements, every one of which moves by the displacement of its linearly interpolated velocity and contributes to the cell it lands in (or leaves the volume when it is not periodic), so the number of sub-elements only changes the resolution. The result is the same whichever axis is the line of sight once axes are permuted, sight lines do not influence each other, the signal enters linearly, and reading the cubes from files gives the same box.',
  ['inputs', 'configurations'],
  'all boxes, velocity fields, axes, redshifts and sub-cell numbers',
  'There is no test of the distortion code; conservation is a statement about every velocity field.',
  ['pv_mpm.py'],
  [('mesh-to-mesh particle mapping', 'pv_mpm.py:get_distorted_dt, add_rsd_box')],
  ['returned boxes'])

p('P11', 'The Thomson optical depth integrates the electron column along the line of sight',
  'The optical depth of any ionisation history, at every redshift, is the analytic fully ionised value below the lowest output plus the (trapezium) integral of the electron column through the outputs above it, with the constants of the cosmology in force, so it grows with redshift, does not depend on the order in which outputs are supplied or on the number of initial points, is linear in the ionised fraction, gets nothing from neutral gas, and reaches the closed form for a finely sampled fully ionised history. The optical-depth map of a lightcone, or of coeval boxes given as a dictionary or through a reading function, gives in every pixel the value of the one-dimensional calculation for that sight line.',
  ['inputs', 'histories'],
  'all redshift samplings, ionisation histories and density cubes',
  GEN + 'the test checks one total to ten percent.',
  ['tau.py'],
  [('integration', 'tau.py:tau, tau_map')],
  ['returned optical depths'])

p('P12', 'Smoothing kernels are normalised and smoothing equals explicit convolution',
  'Every smoothing kernel (Gaussian 2D and 3D by sigma or FWHM, square, cubic and spherical top hat, Lanczos) has its documented profile centred on cell n//2 for odd and even sizes, is symmetric about it, non-negative where its profile is, and sums to one; so do those of the noise module. Smoothing a plane or volume with any of them equals the direct periodic convolution with that kernel, is linear, keeps constants and the mean, and leaves its input alone. smooth_coeval applies a top hat along the frequency axis only and a Gaussian to the slices of that axis only, of the resolution (1+z)*21cm/baseline in cells (times ratio along frequency), for any frequency axis, box size and baseline unit; smooth_lightcone averages the slices within +-dz/2 of each redshift and applies the Gaussian of that redshift, for ascending, descending and generated redshifts. uv-map filtering multiplies the Fourier modes by the map divided by its maximum, after removing the spacings beyond the longest baseline; the uv threshold removes exactly the cells below it. beam_convolve is the zero-padded convolution with a Gaussian of the given FWHM or lambda/baseline. interpolate2d/3d reproduce nearest and (multi)linear interpolation at any positions inside the array. smooth_line is the normalised window average, of the length of its input, for every window kind.',
  ['inputs', 'configurations'],
  'all array shapes, widths, kernels, boundary modes, axes and redshifts',
  GEN + 'tests check the sign of a few summary numbers.',
  ['smoothing.py', 'fft_functions.py', 'beam_convolve.py'],
  [('kernels', 'smoothing.py:gauss_kernel, tophat_kernel, tophat_kernel_3d'),
   ('coeval and lightcone smoothing', 'smoothing.py:smooth_gauss, smooth_coeval, smooth_lightcone'),
   ('FFT convolution', 'fft_functions.py:fftconvolve')],
  ['returned arrays'])

p('P13', 'FFT convolution equals direct convolution under every boundary rule',
  'For any array and kernel of one, two or three dimensions, any parity, real, integer, single-precision or complex, and either one larger, fftconvolve returns the values and shape of the direct sum with the kernel centred on cell n//2 of each axis, for modes same, full and valid and for constant (zero), circular, wrap, nearest, reflect (edge not repeated) and mirror (edge repeated) boundaries; valid ignores the boundary and refuses larger kernels, circular forces mode same. Full and same agree, wrap equals circular, the result is linear in both arguments, keeps constants for a normalised kernel and every boundary but constant, commutes with periodic shifts in the circular mode, and unknown modes and boundaries are refused. The Fourier amplitude and phase of a real array reproduce its transform, hence the array, exactly.',
  ['inputs', 'configurations'],
  'all array and kernel shapes, dimensions, parities and boundary rules',
  'There is no direct test; off-by-one alignment appears only for particular parities.',
  ['fft_functions.py', 'helper_functions.py'],
  [('convolution', 'fft_functions.py:fftconvolve'), ('amplitude/phase helpers', 'helper_functions.py')],
  ['returned arrays'])

p('P14', 'Simulation data files survive a write-read round trip',
  "Writing any cube with the density (raw or cgs), velocity, clumping, ionised-fraction (single/double, neutral, with or without records), cbin (32/64 bits, C/F order, one to four dimensions), raw-binary, fits, npy or pickle writer and reading it back returns the same shape, axis order and values at the stored precision, for unequal mesh sides and any memory layout; the bytes are the documented header and Fortran- or C-ordered payload, and files laid out like that by the simulation read to the same arrays, including temperature, ionisation-rate and old-format files. Velocities in km/s are momentum times the box's conversion over density/8. The mesh size, type and redshift reported for a file are those it was written with, whatever its directory is called, -1 when the name has no redshift; directory listings return exactly the redshifts in range, sorted, bracketing it when asked. Source lists keep positions and masses (either or both mass ranges) through a write-read cycle, and gridding them adds up sources that share a cell. Dictionaries written as pickle, json, yaml, npz, csv or xlsx, by extension or by a format in any case, read back equal under the file name given. A write that cannot be done raises.",
  ['inputs', 'configurations'],
  'all mesh shapes, values, precisions, orders, formats and redshifts',
  'No test writes or reads a file; a transposed axis or wrong header only shows for unequal mesh sides.',
  ['density_file.py', 'vel_file.py', 'xfrac_file.py', 'temper_file.py', 'irate_file.py', 'source_file.py', 'helper_functions.py', 'read_files.py'],
  [('readers and writers', 'helper_functions.py:read_cbin, save_cbin, save_raw_binary, read_raw_binary'),
   ('file classes', '*_file.py'), ('dictionary io', 'read_files.py:write_dictionary_data, read_dictionary_data')],
  ['arrays read back', 'file contents'])

p('P15', 'Halo and source catalogues are selected and gridded without loss',
  'Reading a halo catalogue (C2RAY/CubeP3M text lists, with or without a selection box, Rockstar, full CubeP3M or pkdgrav halos) with mass limits and a maximum number returns exactly the halos strictly between the limits, in file order and up to that number, with positions, masses and velocities in the documented units, whatever limits were used before. Gridded density files come out in the documented units. Putting halos or sources on a mesh puts each object in the cell of the box that contains its position, sums objects sharing a cell, and conserves the total mass, value or number. Unit conversions between grid and physical lengths, velocities and masses match their definitions and invert each other, for scalars and arrays of single or double precision.',
  ['inputs', 'configurations'],
  'all catalogues, limits, grid sizes and positions including shared cells and box edges',
  'No test touches catalogues; duplicates in one cell and boundary positions are what breaks gridding.',
  ['halo_list.py', 'source_file.py', 'nbody_file.py', 'line_intensity.py'],
  [('catalogue readers', 'halo_list.py'), ('gridding', 'nbody_file.py:halo_list_to_grid, Halo2Grid; source_file.py; line_intensity.py')],
  ['returned catalogues and grids'])

p('P16', 'Friends-of-friends bubbles are the connected components of the ionised cells',
  'For any 2D or 3D field and threshold, the friends-of-friends labels partition exactly the cells at or above the threshold (also when every cell or none is) so that two cells share a label if and only if they are connected inside the mesh under the requested connectivity (faces by default), labels run from 1 and the volume list gives the size of each in turn. Labelling is invariant under axis permutation and reflection. Bubble-size distributions derived from a volume list or label map are normalised logarithmic histograms of exactly those volumes and their effective radii in the given resolution, and the watershed distribution counts separate bubbles at their effective radius.',
  ['inputs', 'configurations'],
  'all binary and thresholded fields, periodic and not, 2D and 3D',
  GEN + 'the test uses one ball in the middle of the box.',
  ['bubble_stats.py', 'Friends_of_Friends.py'],
  [('component labelling', 'bubble_stats.py:fof; Friends_of_Friends.py'), ('size distribution', 'bubble_stats.py:fof, dist_from_volumes')],
  ['labels and volume lists'])

p('P17', 'Ray and sphere bubble-size statistics follow their definitions',
  "The mean-free-path size distribution is r times the fraction of rays whose length is r, for rays from random cells of the selected phase in isotropic random directions (all rays counted, also those longer than the box side), in 2D and 3D; from a chosen point it is the fraction itself, and a point outside the phase has none. It is reproducible for a fixed random state, scales linearly with the box size, is zero when no cell is selected, and selecting below a threshold is the same as selecting above it on the mirrored field; rebinning interpolates it at the sizes asked for. The averaged form is the normalised density in ln r of each cell's mean ray. The spherical-average distribution is the fraction of cells whose largest ball (centred on the cell, nothing outside the box) with mean beyond the threshold has each radius. Granulometry is the relative area removed between successive ball openings, and the morphological operations equal their set definitions. A sphere painted into a field covers exactly the cells within its radius, counting periodic images unless told otherwise.",

  ['inputs', 'configurations'],
  'all fields, thresholds, box sizes, ray numbers and random seeds',
  GEN + 'one ball is tested against a loose bound.',
  ['bubble_stats.py', 'mfp_np.py', 'spa_np.py'],
  [('ray tracing', 'mfp_np.py; bubble_stats.py:mfp'), ('spherical average', 'spa_np.py; bubble_stats.py:spa')],
  ['returned distributions'])

p('P18', 'Topology numbers equal those of the periodic cubical complex',
  'The Euler characteristic reported for any thresholded 3D field (cells strictly above the threshold) equals vertices minus edges plus faces minus cubes of the periodic cubical complex: of cells as points joined through faces for 6 neighbours, of the union of closed cells otherwise. It is the same whichever implementation computes it (Cython, Numba, plain Python, parallel jobs), which build the same complex, is additive over separate objects, and is unchanged by periodic translation, reflection and axis permutation. Betti numbers zero and two equal the number of connected components, inside the box and under the requested connectivity, of the structure and of the rest, and Betti number one is components plus cavities minus Euler characteristic, for computed and for given values.',
  ['inputs', 'configurations'],
  'all binary fields, grid shapes and implementations',
  'No topology test exists; each implementation is a separate copy of the counting code.',
  ['topology.py', 'ViteBetti.py', 'ViteBetti_cython.pyx', 'numba_functions.py', 'morph.py'],
  [('Euler characteristic', 'ViteBetti.py, ViteBetti_cython.pyx, numba_functions.py'), ('Betti numbers', 'topology.py:betti0, betti1, betti2')],
  ['returned integers'])

p('P19', 'Region identification splits cells by their own value in the documented order',
  'Identifying ionised or neutral regions by a fixed threshold, by two- or three-class clustering or by triangle thresholding (of the whole field, or the median over slices along any axis) selects cells by their value alone, on the stated side: a fixed threshold selects exactly the cells at or beyond it, clustering leaves both phases non-empty, reproduces well separated modes exactly and is unchanged by moving cells about, axis permutation and a change of units, and a single-valued field is one region. Superpixels of a 2D or 3D field number every cell from zero; means, deviations, sizes, pixels, signal-to-noise and mean maps of superpixels are those of their cells for any integer labels; stitching selects whole superpixels (or cells) below one threshold that separates two modes (or, when the histogram of means has a single peak, lies furthest from the chord below it), and marking the boundaries of superpixels changes boundary cells only.',
  ['inputs', 'configurations'],
  'all fields, including bimodal ones with any separation and mixture fraction',
  GEN + 'one ball in noise is tested.',
  ['identify_regions.py', 'superpixels.py', 'morph.py'],
  [('thresholding', 'identify_regions.py'), ('superpixels', 'superpixels.py')],
  ['returned masks and maps'])

p('P20', 'UV coverage counts every baseline sample once and is Hermitian when mirrored',
  'For any antenna layout, redshift, cosmology, declination and observing time, the baselines are the separations of all antenna pairs, each once, in wavelengths of the 21-cm line at that redshift (or of the given frequency), and the number of antennas is reported correctly everywhere. A time step turns the baselines rigidly to its hour angle (15 degrees per hour, step times integration time, centred on the middle of the observation) and the declination, so their lengths are kept. The gridded coverage counts every baseline sample whose rounded coordinates lie on the grid exactly once in the cell of those coordinates, with zero spacing at the corner, and the coverage of an observation is the mean over its time steps. Mirrored baselines count half each, which makes the coverage symmetric under inversion (apart from the outermost row and column of even grids) with an unchanged total. A maximum baseline removes exactly the cells beyond it. Coverage for many redshifts, serial, parallel or with checkpoints, equals the coverage of each redshift alone, and the coverage with gains or antenna stamps has the same samples in the same cells and keeps the gain products or antenna pairs of each. A layout is the same in every coordinate frame up to a rigid motion, and geographic and Cartesian coordinates convert back and forth exactly, without changing the arrays passed in.',
  ['inputs', 'configurations'],
  'all antenna layouts, declinations, integration and total times, grid sizes, redshifts and job counts',
  'No telescope test exists; alignment and normalisation are statements about all layouts and grids.',
  ['radio_telescope_layout.py', 'radio_telescope_noise.py', 'radio_telescope_calibration.py'],
  [('baselines and rotation', 'radio_telescope_layout.py:from_antenna_config, earth_rotation_effect'),
   ('gridding', 'radio_telescope_layout.py:grid_uv_tracks, get_uv_daily_observation'),
   ('lightcone coverage', 'radio_telescope_noise.py:get_uv_map_lightcone')],
  ['returned baselines and maps'])

p('P21', 'Saved UV coverage survives interruption and is never mixed between setups',
  'Computing a coverage lightcone with a save file gives the same maps as without one, whether the file is absent, complete, or left by runs that were interrupted at any point or crashed while writing, with any redshifts, number of jobs and checkpoint interval, and the file ends up holding the coverage of every redshift of every finished run. An interruption never leaves a damaged file and never loses a map that was already saved, and at most one checkpoint interval of finished maps is lost. A file written for another set-up (grid, box, times, declination or antenna layout) is refused and left as it was. Noise made with a save file equals noise made without.',
  ['histories', 'crash_points', 'fault_sequences'],
  'all sequences of saving, interruption after any redshift, resuming with the same, more or other redshifts or settings',
  'No test exercises the save file; a resumed history cannot be sampled by a single call.',
  ['radio_telescope_noise.py', 'radio_telescope_layout.py'],
  [('checkpointing', 'radio_telescope_noise.py:get_uv_map_lightcone')],
  ['returned dictionaries and the saved file'],
  state=[dict(name='save file', meaning='pickled coverage per redshift', where='src/tools21cm/radio_telescope_noise.py')])

p('P22', 'Thermal noise obeys the radiometer equation and its scaling laws',
  'The noise level follows the radiometer equation for every configuration: the flux-density limit comes from the system temperature and effective area given as numbers, functions, defaults or tables (interpolated in the logarithm), the noise per visibility scales inversely with the square root of bandwidth and integration time, the image noise inversely with the square root of bandwidth, observing time and number of antenna pairs, and both linearly with system temperature. Temperatures and fluxes per cell (mK and microjansky) are converted by exact inverse conversions of the Rayleigh-Jeans law for the cell size and redshift. A simulated noise map is real, without mean, reproducible for a given random state, obeys the same scalings, and in Fourier space has zero power at unsampled cells and exactly the predicted variance (for natural or uniform weighting and the noise window) at sampled ones; the noise power spectrum is the bin average of that variance without the window. Every slice of a noise cube, coeval or along redshift, is the noise map of the coverage, channel depth and units of its own redshift. The analytic noise error of the power spectrum follows its published formula.',
  ['inputs', 'configurations'],
  'all redshifts, observing parameters, coverage maps and cube depths',
  'No noise test exists and the noise is random, so its laws hold for distributions, not samples.',
  ['radio_telescope_sensitivity.py', 'radio_telescope_noise.py', 'power_spectrum_noise.py'],
  [('sensitivity', 'radio_telescope_sensitivity.py:sigma_noise_radio, jansky_2_kelvin, kelvin_2_jansky'),
   ('noise realisation', 'radio_telescope_noise.py:noise_map, apply_uv_response_on_image')],
  ['returned numbers and maps'])

p('P23', 'Instrument response keeps sampled modes and removes the others',
  'Applying a coverage map to an image keeps exactly the Fourier modes with non-zero coverage, whatever its size, and nulls the rest (taking the real part of the result), so it is linear, never increases the power, is idempotent when the coverage is symmetric under inversion, and leaves the arrays passed in alone; a cube of any depth is treated slice by slice, with the coverage given or made from the layout. With unit antenna gains the response with gains equals the gain-free one, a constant real gain multiplies it, and in general each mode is multiplied by the square root of the mean gain product of its cell. Primary-beam patterns depend only on the distance from the centre cell, are one there, never increase within the main lobe, and have the documented widths (Gaussian of the Airy width, Bessel pattern with its first null at 1.22 wavelengths over diameter, step and sigmoid at half that null) at the redshift of each slice, for slices and cubes with any frequency axis.',
  ['inputs', 'configurations'],
  'all images, coverage maps, gain patterns and beam parameters',
  'No test exercises the response; idempotence and linearity are statements about all images.',
  ['radio_telescope_noise.py', 'radio_telescope_calibration.py', 'primary_beam.py'],
  [('response', 'radio_telescope_noise.py:apply_uv_response_on_image, apply_uv_response_on_coeval'),
   ('gains', 'radio_telescope_calibration.py'), ('beams', 'primary_beam.py')],
  ['returned images'])

p('P24', 'Mapping to observed coordinates and back keeps positions, axes and averages',
  'Converting a comoving lightcone to angle and frequency coordinates and back keeps constants and is linear in the signal, and the axes returned (angles, frequencies, redshifts, cell sizes) are those that follow from the cosmology. Binning in frequency gives channels from the near end of the lightcone down in steps of the width asked for; each channel is the plain average of the slices inside a window, one channel wide in comoving distance, centred on the slice at that frequency, with fewer slices at the two ends. Each angular slice is the spline interpolation, from first to last cell, of the slice smoothed with a top hat of the output pixel, onto as many pixels as the box subtends at that redshift, then repeated periodically or cropped to the common size. Going back uses the coarser of the two resolutions and one redshift per slice at equal comoving steps. Slices stay independent of each other when only angles are remapped, and padding a lightcone repeats each slice periodically on the sky and nowhere else.',
  ['inputs', 'configurations'],
  'all lightcones, redshift ranges, box sizes, channel widths and padding choices',
  'No test exercises the coordinate mapping; misalignment by one cell is invisible in means.',
  ['angular_coordinates.py'],
  [('angle mapping', 'angular_coordinates.py:physical_slice_to_angular, angular_slice_to_physical'),
   ('frequency mapping', 'angular_coordinates.py:physical_lightcone_to_observational, bin_lightcone_in_frequency')],
  ['returned cubes and axes'])

p('P25', 'Position-dependent spectra and correlation functions are the stated averages',
  'The integrated bispectrum of a box cut into sub-volumes is the average, over exactly the sub-volumes that tile the box, of the power spectrum of the box with everything outside the sub-volume set to zero times the mean of the second field in that sub-volume, divided (when normalised) by the mean of those spectra and the mean square of the field. It is unchanged by periodic shifts by whole sub-volumes and by mirror images, and scales with the cube of the amplitude (the square in the first field, linearly in the second). The correlation function of any field or pair of fields is, at each separation asked for, the documented integral over its binned power spectrum, with bins that hold no modes skipped. The Landy-Szalay estimate equals the brute-force count of data-data, data-random and random-random pairs in every bin, for point lists and for cubes.',
  ['inputs', 'configurations'],
  'all boxes, splits and amplitudes',
  'No test exists for these statistics.',
  ['position_dependent_power_spectrum.py', 'corr_function.py'],
  [('sub-volume statistics', 'position_dependent_power_spectrum.py:power_spectrum_response, integrated_bispectrum, integrated_bispectrum_cross'), ('correlation functions', 'corr_function.py:ps_to_corr, correlation_function, cross_correlation_function, landy_szalay_estimator')],
  ['returned statistics'])

p('P26', 'Lyman-alpha and line-intensity maps follow their recipes cell by cell',
  'The Lyman-alpha cross-section follows the Voigt profile (in agreement with direct integration) and integrates to the line strength, and the optical depth and flux of any cell follow the fluctuating Gunn-Peterson expression for that cell alone. The effective optical depth of any window is the logarithm of the mean transmission over exactly that periodic window, along whichever axis is the line of sight, in the orientation of the input. Line-intensity maps (neutral hydrogen and ionised carbon) give every halo the luminosity, mass or brightness its recipe prescribes for its mass and redshift, put it in the cell that holds it, and add up over halos, so that the map of a set of halos is the sum of the maps of its members.',
  ['inputs', 'configurations'],
  'all cubes, redshifts, windows, axes and halo lists',
  'No test exists for these maps.',
  ['lyman_alpha_transmission.py', 'line_intensity.py'],
  [('optical depth', 'lyman_alpha_transmission.py'), ('halo recipes', 'line_intensity.py')],
  ['returned maps'])

p('P27', 'Analysis functions leave their inputs alone and repeat their answers',
  'No analysis or conversion function changes the arrays, lists or dictionaries it is given, whatever options are used (functions documented to write in place excepted). Calling it again with the same inputs (and the same random state where it is random) gives the same answer, regardless of which other functions were called in between. The same values as a contiguous or strided view, in another memory order or byte order, read-only, as an array subclass, as integers, or (where lists are accepted) as lists, give the same answer; single precision gives it to the precision of the input. An option left out is the same as giving its documented default value.',
  ['inputs', 'histories'],
  'all public analysis functions, argument forms, memory layouts and call orders',
  'Tests never look at their inputs afterwards and rarely call twice.',
  ['power_spectrum.py', 'smoothing.py', 'temperature.py', 'statistics.py', 'bubble_stats.py', 'lightcone.py', 'helper_functions.py', 'cosmo.py'],
  [('every public entry point', '__init__.py')],
  ['inputs after the call; repeated results'])

p('P28', 'Toy models, foregrounds and unit helpers satisfy their closed forms',
  'Painted bubbles and kernels put exactly the requested periodic shapes into a box, whatever their position and however they overlap the edges, and bubble models reach the ionised fraction they report. Galactic and point-source foreground cubes are reproducible for a seed, follow their frequency power law slice by slice and have the stated angular statistics; wedge filters and the (rolling) removal of the wedge take out exactly the modes inside the wedge and leave a cube with none there unchanged. Percolation and box-counting measures equal their definitions on any binary field. Magnitude, luminosity, star-formation and field-of-view conversions equal their closed forms and invert each other, for plain numbers and quantities in any unit. A fit of noiseless data recovers its parameters in the order given.',
  ['inputs', 'configurations'],
  'all positions, radii, grids, frequencies and luminosities',
  'No tests exist for these helpers.',
  ['test_case.py', 'foreground_model.py', 'astro_tools.py', 'percolation.py', 'box_counting.py', 'fitting_methods.py'],
  [('bubble painting', 'test_case.py'), ('foregrounds and wedge removal', 'foreground_model.py'), ('percolation and box counting', 'percolation.py; box_counting.py'), ('unit helpers', 'astro_tools.py'), ('fits', 'fitting_methods.py:FitFunction')],
  ['returned values'])
