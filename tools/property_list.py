prop('C01', 'A GeoTIFF write that returns has stored the image',
     'When writing a GeoTIFF image returns normally, reopening the file yields exactly that image: size, band order and count, data type, '
     'every pixel, geotransform, CRS and nodata value, whatever history of opening, modifying and re-saving led to it. If storage fails '
     'while it writes (full disk, I/O error, torn or short write, failed open or close) or memory runs out, the call either still achieves '
     'this or raises, never changes any image in memory, and - also after the process died in the middle - writing again to the same path on healthy '
     'storage succeeds with the exact image.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'all histories of create/open/modify/read/write/re-save on several paths, all data types, band counts, sizes and nodata values, with '
     'any single storage fault, failed allocation or process death at any operation of a write',
     'The existing test writes one 1-band image to a healthy /tmp and reads it back; no test sees a failing disk, a NaN/fractional nodata, '
     'a re-save or a second write to the same path.',
     [E + 'geotiff/geotiff_image.py', E + 'geotiff/geotiff_metadata.py', E + 'geotiff/geotiff_image_factory.py',
      E + 'earth_overhead_point_calculators/geotiff_point_calc.py'],
     [('GeotiffImage.write_to_disk', E + 'geotiff/geotiff_image.py'), ('GeotiffMetadata._from_file', E + 'geotiff/geotiff_metadata.py')],
     state=[('image data', 'pixels in memory or lazily on disk', 'GeotiffImage._image_data/_dset')],
     observe=['file contents after each write, reopened through GDAL and through resippy'],
     note='Seeded search over histories and disk-fault plans against an in-memory model; real resippy, GDAL, libtiff, libc and kernel; '
          'sampled, not exhaustive. Two GDAL-internal findings are listed in known_findings.json.',
     tech='deterministic simulation: seeded operation histories on a simulated faulty disk, checked against a reference model')

prop('C02', 'ENVI image cubes and headers survive the disk',
     'An ENVI cube whose write returned normally reads back - through the array reader and through the image object - with the same '
     'pixels, data type, size, band order, interleave and wavelengths, and so does a cube that other ENVI software wrote (either byte order, '
     'header offset, header lines in any order and capitalisation). If storage fails or memory runs out during a write the call raises or the '
     'cube is complete; a failed read raises and never yields invented pixels, later reads do not change earlier results; a data file that has lost its end is refused rather than padded, and after any failure the same path can be written and read again.',
     ['histories', 'fault_sequences', 'crash_points', 'inputs'],
     'all shapes, ENVI data types, interleaves and array memory layouts, all histories of writing, reading, truncating and damaging on '
     'several paths, with any single storage fault or process death',
     'The existing test writes one small cube to healthy storage; no test covers bip/bsq, other data types, failing disks or truncated files.',
     ['resippy/utils/envi_utils.py', 'resippy/image_objects/envi/envi_image.py', 'resippy/image_objects/envi/envi_metadata.py',
      'resippy/image_objects/envi/envi_image_factory.py'],
     [('write_envi_image / read_envi_image', 'resippy/utils/envi_utils.py'), ('EnviImage.read_band_from_disk', 'resippy/image_objects/envi/envi_image.py')],
     observe=['data and header files', 'arrays returned by both readers'],
     note='Seeded search; real resippy, numpy, GDAL, libc and kernel under a faulty-disk seam, judged by an in-memory model. One GDAL-internal '
          'finding is listed in known_findings.json.',
     tech='deterministic simulation: seeded operation histories on a simulated faulty disk, checked against a reference model')

prop('C03', 'Camera images deliver their file\'s pixels and geometry or raise',
     'Opening a camera image (physical camera, RPC stereo, multi-band drone set) and reading it, band by band, whole, lazily or repeatedly, '
     'delivers exactly the pixels, band order, nodata value, camera model, name and position/time tags that the files hold. When a file cannot be '
     'read, lacks its end, or lists its siblings in any order, the call raises or gives those same values - never zeros, another band or '
     'None - and an image already loaded is not affected by what later happens to its file.',
     ['histories', 'fault_sequences', 'inputs'],
     'all histories of opening, reading, keeping and truncating over several files and formats, all listing orders, with any single read fault',
     'The tests open fixture files on a healthy disk; several need files that are absent, and none sees a failed read or a partial file.',
     [E + 'physical_camera/physical_camera_image.py', E + 'digital_globe/view_ready_stereo/view_ready_stereo_image.py',
      E + 'micasense/micasense_image.py', E + 'micasense/micasense_image_factory.py', 'resippy/image_objects/abstract_image.py',
      E + 'earth_overhead_point_calculators/rpc_point_calc.py'],
     [('read_band_from_disk', E), ('MicasenseImageFactory', E + 'micasense/micasense_image_factory.py')],
     state=[('image data', 'kept pixels or nothing', 'AbstractImage._image_data')],
     observe=['arrays, metadata and point calculators returned by the factories'],
     note='Seeded search; real resippy, GDAL, imageio, tifffile, exifread under a faulty-disk seam. Two GDAL-internal findings are listed '
          'in known_findings.json.',
     tech='deterministic simulation: seeded operation histories on a simulated faulty disk, checked against a reference model')

prop('C04', 'Spectral libraries are read whole, in any directory order, or refused',
     'Reading a spectrum from a spectral library yields exactly the wavelength, value and bandwidth triples the files hold, with nodata '
     'marked, whichever order the directory lists its files in, whatever was read before and whichever other threads read at the same time. '
     'If a file of the library cannot be read, or has lost its end, the reader raises or returns values that pair up as the files do - '
     'never a value with the wrong wavelength - and changing a returned array never changes the spectrum.',
     ['histories', 'fault_sequences', 'schedules', 'inputs'],
     'all library contents, listing orders, histories of reading, rewriting and truncating, single read faults and thread interleavings',
     'Tests read a fixture library on one machine\'s listing order and a healthy disk in one thread.',
     ['resippy/spectral/spectrum.py', 'resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py',
      'resippy/spectral/spectrum_factories/envi/ascii/envi_ascii_plot_file_factory.py',
      'resippy/spectral/spectrum_factories/SVC/ascii/svc_spectral_factory.py',
      'resippy/spectral/spectrum_factories/csv/ascii/csv_spectral_factory.py'],
     [('sensor file lookup and parsing', 'resippy/spectral/spectrum_factories')],
     observe=['Spectrum.get_wavelengths/get_spectral_data/get_fwhm'],
     note='Seeded search; real resippy and file I/O under a faulty-disk seam with seeded listing order and a seeded thread scheduler.',
     tech='deterministic simulation: seeded histories and thread schedules on a simulated faulty disk, checked against a reference model')

H = 'deterministic simulation: seeded histories, disk faults and thread schedules, checked against a reference model'

prop('C05', 'Navigation answers are those of the file\'s records, or an error',
     'A navigation object loaded from an Applanix EO text file or an SBET file holds exactly the well-formed records of that file, in '
     'order, and answers every query for a time inside the file with the linear interpolation of those records: same shape as the times, '
     'nothing extrapolated outside, no NaN, caller arrays and stored data never changed. Damaged lines never shift other records. A load '
     'that fails or meets a failing disk raises, leaving an already loaded object as it was; a reload replaces everything; threads sharing '
     'an object get the answers one thread gets.',
     ['histories', 'fault_sequences', 'schedules', 'inputs'],
     'all files (header lines, damaged or torn records, one to many records), all histories of loads, reloads and queries of scalars, '
     'arrays and grids, single disk faults during a load, and thread interleavings',
     'The existing tests load one intact fixture on a healthy disk in one thread and ask for a few times.',
     ['resippy/photogrammetry/nav/nav_factory.py', 'resippy/photogrammetry/nav/applanix_eo_nav.py', 'resippy/photogrammetry/nav/applanix_sbet_nav.py',
      'resippy/photogrammetry/nav/abstract_nav.py'],
     [('load_from_file', 'resippy/photogrammetry/nav'), ('interpolation', 'resippy/photogrammetry/nav/abstract_nav.py')],
     state=[('records', 'structured array of navigation records', 'AbstractNav._nav_data')],
     observe=['get_world_xs/ys, get_alts, get_rolls/pitches/headings, get_nav_records, get_num_records'],
     note='Seeded search. Real resippy, pyproj, file I/O; pdal (absent) is replaced by a reader of SBET records. Heading wrap is outside '
          'the domain (see DESIGN.md).', tech=H)

prop('C06', 'Every Pix4D image gets its own camera, in any file or directory order',
     'Reading a Pix4D project (parameter files found by name, or named explicitly) gives every image exactly its own position, angles, '
     'camera matrix, distortion, rotation and internal camera, whatever the order of the directory listing or of the entries in a file, '
     'and its point calculator projects world points as the documented camera model with those numbers. A file that cannot be read or was '
     'cut short raises or yields only whole entries with the right numbers - never one image\'s numbers under another\'s name - and '
     're-reading a reprocessed project shows only new numbers, also from several threads.',
     ['histories', 'fault_sequences', 'schedules', 'inputs'],
     'all projects (number of images and cameras per image, entry order, line endings), listing orders, histories of reading, cutting and '
     'reprocessing, single read faults, thread interleavings',
     'Tests read one fixture project in the one listing order of one machine on a healthy disk.',
     ['resippy/utils/pix4d_utils.py', E + 'earth_overhead_point_calculators/pix4d_point_calc.py'],
     [('parameter file readers', 'resippy/utils/pix4d_utils.py'), ('projection', E + 'earth_overhead_point_calculators/pix4d_point_calc.py')],
     observe=['dictionaries returned by the readers', 'Pix4dPointCalc projections and calibration data'],
     note='Seeded search against an independent model of the files and of the documented camera; real resippy under a faulty-disk seam '
          'with seeded listing order and thread scheduler.', tech=H)

prop('C07', 'Text lists and CSV tables come back whole, or somebody is told',
     'A list of text lines whose write returned reads back as the same lines, in order, with nothing of an earlier, longer list left over; '
     'every column of a delimited table reads back as the file\'s values in row order, quoted fields and all. If the disk fails during a '
     'write the call raises or the list is there; a failed read raises rather than returning a part; after any failure or a process death '
     'inside a write, writing again to the same path succeeds completely, and threads working on different files do not disturb each other.',
     ['histories', 'fault_sequences', 'crash_points', 'schedules', 'inputs'],
     'all lists and tables, histories of writing, shortening, cutting and reading over several files, single disk faults and process '
     'deaths at any operation, thread interleavings',
     'Tests do not cover these functions on anything but a healthy disk.',
     ['resippy/utils/file_utils.py', 'resippy/utils/csv_utils.py', 'resippy/utils/string_utils.py'],
     [('write_text_list_to_file / read_text_file_to_list', 'resippy/utils/file_utils.py'), ('csv columns', 'resippy/utils/csv_utils.py')],
     observe=['lists and columns returned, files on disk'],
     note='Seeded search; real resippy, CPython I/O, libc and kernel tmpfs under a faulty-disk seam.', tech=H)

prop('C08', 'Every image chip is its window of the image, in memory and on disk',
     'Cutting an image - whole with overlap, at given corners or at given centres - yields chips that are exactly the pixels of the '
     'windows at the reported positions, in the chosen bands and the image\'s own data type; a whole cut leaves no pixel uncovered, and '
     'the image is never changed. Writing chips that returned has stored every one under its own name, replacing older files; a disk that '
     'refuses a chip makes the call raise; after a failure or a process death writing again stores all of them; threads writing to '
     'different directories do not disturb each other.',
     ['histories', 'fault_sequences', 'crash_points', 'schedules', 'inputs'],
     'all image shapes, data types, memory layouts, chip sizes and overlaps, histories of cutting and writing, single disk faults and '
     'process deaths, thread interleavings',
     'Tests cut one image and do not write chips to failing disks, twice, or from threads.',
     ['resippy/utils/image_utils/image_chipper.py', 'resippy/utils/image_utils/image_utils.py'],
     [('chip_entire_image_to_memory', 'resippy/utils/image_utils/image_chipper.py'), ('write_chips_to_disk', 'resippy/utils/image_utils/image_chipper.py')],
     observe=['chip arrays and positions', 'chip files'],
     note='Seeded search; real resippy, imageio, Pillow, tifffile under a faulty-disk seam; lossless formats.', tech=H)

prop('C10', 'Directories are created when asked for, and listed whole or not at all',
     'Creating a directory that returned means the directory (with its parents) exists, whatever exists already and however many threads '
     'create overlapping paths at the same time, and it never harms what is there; a disk that refuses makes the call raise, and after a '
     'failure or process death a retry succeeds. Listing files by extension or prefix, or folders, returns exactly the matching entries - '
     'names with spaces or glob characters included, in any listing order - and a directory that cannot be read raises instead of looking '
     'empty or partial.',
     ['histories', 'fault_sequences', 'crash_points', 'schedules', 'inputs'],
     'all directory trees and names, listing orders, histories of creating and listing, single disk faults, process deaths, and '
     'interleavings of threads inside the creation',
     'Tests list one small directory; the race between two creators and an unreadable directory cannot be produced by a unit test.',
     ['resippy/utils/file_utils.py'],
     [('make_dir_if_not_exists', 'resippy/utils/file_utils.py'), ('get_all_files_in_dir', 'resippy/utils/file_utils.py')],
     observe=['the directory tree', 'lists returned'],
     note='Seeded search; real resippy, os.makedirs, listdir and kernel under a faulty-disk seam, with seeded listing order and thread '
          'scheduler that also interrupts os.makedirs.', tech=H)

prop('C11', 'GPS and UTC time convert alike on every machine and around leap seconds',
     'Converting between UTC timestamps and GPS timestamps, weeks and seconds uses the leap seconds in force at that instant, is exact to '
     'microseconds, inverts itself and never runs backwards except in an inserted second, for every instant from the GPS epoch on - whatever '
     'the time zone or summer time rule of the machine, when it is changed, and which thread asks.',
     ['histories', 'schedules', 'inputs'],
     'all instants (dense around leap seconds, week rollovers and summer time changes), all machine time zones and changes of them while '
     'the process runs, thread interleavings',
     'The existing tests convert a few instants in the one time zone of the machine that runs them.',
     ['resippy/utils/time_utils.py'],
     [('leap second table and offsets', 'resippy/utils/time_utils.py')],
     observe=['returned timestamps, weeks and seconds'],
     note='Seeded search over simulated machines (time zone, calendar instant); real resippy and libc zone code; oracle counts leap '
          'seconds independently.',
     tech='deterministic simulation: simulated machine clocks and time zones over seeded histories, checked against a reference model')


prop('C13', 'Elevation models answer with the elevations in their file',
     'A digital elevation model loaded from a GeoTIFF answers every query - single points, lists or grids, in its own or another '
     'projection, between, on or beyond the posts - with the nearest or the bilinearly weighted elevation of its file, never with a '
     'nodata value, and reports the file\'s highest, lowest and mean elevation. This stays true when its file is overwritten later, when '
     'the interpolation is switched, and when several threads query (each answer is then that of one of the methods in use); the '
     'caller\'s coordinates are not changed. A file that cannot be read completely raises instead of becoming a model with invented '
     'elevations, and can be loaded once the disk is healthy; loading or asking while memory runs out raises or is right, too.',
     ['histories', 'fault_sequences', 'schedules', 'inputs'],
     'all rasters of at least 2 x 2 posts (integer/float, any nodata, geotransform and projection), histories of loading, overwriting, '
     'cutting, switching and querying, single disk faults while loading, allocation failures, thread interleavings',
     'Tests query one healthy file at a few points with one interpolation in one thread.',
     ['resippy/photogrammetry/dem/dem_factory.py', 'resippy/photogrammetry/dem/geotiff_dem.py', 'resippy/photogrammetry/dem/constant_elevation_dem.py',
      'resippy/photogrammetry/dem/abstract_dem.py'],
     [('DemFactory.from_gtiff_file', 'resippy/photogrammetry/dem/dem_factory.py'), ('GeotiffDem.get_elevations', 'resippy/photogrammetry/dem/geotiff_dem.py')],
     observe=['elevations and statistics returned'],
     note='Seeded search; real resippy, GDAL, pyproj, scipy under a faulty-disk seam and thread scheduler; one GDAL-internal finding is listed '
          'in known_findings.json.', tech=H)


prop('C12', 'A shared camera model answers every question as its parameters determine',
     'Projecting world points to pixels and locating pixels on the ground - at a height or by casting rays onto an elevation model - gives, '
     'for numbers, lists and grids of any memory layout and for coordinates in other projections, what the camera\'s current parameters '
     'determine (forward to 1e-4 pixels, inverse within the solver\'s threshold). This holds whatever was asked before, for every camera '
     'when several exist, after a camera was moved, reconfigured or replaced in its sensor, and when several threads share one camera from '
     'its first use on; the caller\'s arrays are not changed, returned arrays belong to the caller, and if memory runs out a question is '
     'answered right or raises, and can be asked again.',
     ['histories', 'schedules', 'inputs', 'fault_sequences'],
     'all RPC, pinhole, OpenCV, Pix4D, GeoTIFF, look-up and multi-band sensor models within realistic parameter ranges, histories of '
     'questions and changes over several cameras, thread interleavings, allocation failures',
     'Tests ask single fresh cameras a few questions in one thread and compare some of them with themselves.',
     [E + 'earth_overhead_point_calculators/' + n + '.py' for n in (
         'abstract_earth_overhead_point_calc', 'igm_point_calc', 'rpc_point_calc', 'pinhole_camera', 'ideal_pinhole_fpa_local_utm_point_calc',
         'opencv_point_calc', 'fixtured_camera', 'pix4d_point_calc', 'geotiff_point_calc', 'earth_overhead_sensor_model')],
     [('AbstractEarthOverheadPointCalc', E + 'earth_overhead_point_calculators/abstract_earth_overhead_point_calc.py'),
      ('IGMPointCalc lazily built index', E + 'earth_overhead_point_calculators/igm_point_calc.py'),
      ('EarthOverheadSensorModel', E + 'earth_overhead_point_calculators/earth_overhead_sensor_model.py')],
     state=[('lazily built search tree', 'shared by threads from the first question on', 'IGMPointCalc')],
     observe=['returned pixels, longitudes, latitudes and heights'],
     note='Seeded search over interleavings and histories; oracle re-computes each camera from its parameters. No I/O, so no disk faults.',
     tech='deterministic simulation: seeded thread schedules and histories on shared cameras, checked against a reference model')


prop('C09', 'Images staged in new files stay what they are',
     'Warping an image (in memory or from a file) to another projection or resolution, staging a drone image set band by band, and converting '
     'an elevation model between geoid and ellipsoid heights produce exactly the image that the source\'s current pixels determine, with its '
     'georeference and nodata value, and never change the source. A result stays right whatever is warped, staged or changed later and '
     'however many threads do this at once. If the disk refuses or loses any part, or the process dies, the call raises instead of handing '
     'out a result; earlier results and a model being converted keep what they had; and repeating the call on a healthy disk succeeds.',
     ['histories', 'fault_sequences', 'crash_points', 'schedules', 'inputs'],
     'all images, projections and resolutions, histories of warping, staging, converting and changing pixels with several results alive, '
     'single disk faults, process deaths, thread interleavings',
     'No test warps two images in one process, or under a disk that fails; results are read lazily, so a later call can silently replace them.',
     [E + 'geotiff/geotiff_image.py', E + 'micasense/micasense_image_factory.py', 'resippy/photogrammetry/dem/geotiff_dem.py'],
     [('GeotiffImage.gdalwarp_geotiff_image', E + 'geotiff/geotiff_image.py'), ('MicasenseImageFactory.from_numpy_and_pix4d',
       E + 'micasense/micasense_image_factory.py'), ('GeotiffDem.convert_to_geoid_heights', 'resippy/photogrammetry/dem/geotiff_dem.py')],
     state=[('temporary files', 'created by warping and staging, read lazily', 'gdalwarp_geotiff_image, write_tmp_band')],
     observe=['images returned', 'their bands, georeference and nodata value', 'files written'],
     note='Seeded search; real resippy, GDAL warper, PROJ and Pillow under a faulty-disk seam, seeded random bytes and thread scheduler; gdal2tiles '
          'is a stub that records its input; two GDAL/PROJ-internal findings are listed in known_findings.json.', tech=H)


prop('C14', 'Image processing is right and leaves shared arrays alone',
     'Spectral and image processing functions - scene statistics and demeaning with masks, RX/ACE/SAM detectors, covariance equalization, '
     'principal components, grid warping, grey scaling, score images, colour mapping, blending, resizing, point masks, mutual information, '
     'spectra and their resampling, ground grids, shifts by meters, rotation matrices and their angles - return what their definition says for the values they are given, for whole-number and floating point '
     'cubes of any memory layout, read-only ones included. They never change the caller\'s arrays, whatever was computed from them before, '
     'when several threads process the same arrays, and when memory runs out in the middle (then the call raises or is right, and works again later).',
     ['histories', 'schedules', 'fault_sequences', 'inputs'],
     'all cubes with at least two bands and an invertible covariance, masks, palettes and spectra; sequences of functions on shared arrays; '
     'single and lasting allocation failures; thread interleavings',
     'Tests apply single functions to one small floating point cube; whole-number overflow, overwritten inputs and exhausted memory are not exercised.',
     ['resippy/spectral/spectral_image_processing_1d.py', 'resippy/spectral/spectral_image_processing_2d.py', 'resippy/spectral/spectrum.py',
      'resippy/utils/spectral_utils.py', 'resippy/utils/image_utils/image_utils.py', 'resippy/utils/image_utils/image_mask_utils.py',
      'resippy/utils/image_utils/image_registration.py', 'resippy/utils/photogrammetry_utils.py', 'resippy/utils/geom_utils.py',
      'resippy/utils/numpy_and_array_utils.py', 'resippy/utils/proj_utils.py'],
     [('detectors and statistics', 'resippy/spectral/spectral_image_processing_1d.py'), ('image utilities', 'resippy/utils/image_utils/image_utils.py')],
     observe=['arrays returned', 'the arrays handed in'],
     note='Seeded search over histories, schedules and allocation failures (numpy data allocator seam); oracle re-computes each function from its '
          'formula. No disk I/O.',
     tech='deterministic simulation: seeded thread schedules, histories and memory exhaustion, checked against reference formulas')


prop('C15', 'Orthorectified images show what the camera sees',
     'Orthorectifying an overhead image (a geotransform, a pinhole, OpenCV or RPC camera, a drone image set whose bands have their own cameras, or a '
     'look-up image; in memory or still in a file) to a polygon and grid in its own or another projection gives, in every cell, the value the '
     'camera has where it sees the centre of that cell on the elevation model (nearest, linear or cubic), nodata where it does not see it, '
     'and a georeference covering that grid; the file written holds just that, and orthorectifying the whole image, its extent, look-up images, '
     'pixel values at places on the ground and obstructed pixels agree with the same camera and terrain. Image, model, files and caller\'s '
     'arrays stay as they are. If the disk or memory fails, or threads do this at once, a result that is handed out is the right one, '
     'and repeating the call succeeds.',
     ['inputs', 'histories', 'fault_sequences', 'crash_points', 'schedules'],
     'all image sources, cameras, elevation models, grids, projections and bands in the ranges the cameras are valid for; sequences on '
     'shared images; single disk faults, process deaths, allocation failures, thread interleavings',
     'One demo orthorectifies one image and looks at nothing; cells, georeference, extents and obstructions are not compared with the camera anywhere.',
     ['resippy/photogrammetry/ortho_tools.py', 'resippy/utils/photogrammetry_utils.py', 'resippy/image_objects/abstract_image.py',
      E + 'abstract_earth_overhead_image.py', E + 'geotiff/geotiff_image.py', E + 'igm/igm_image.py'],
     [('create_ortho_gtiff_image_world_to_sensor', 'resippy/photogrammetry/ortho_tools.py'), ('create_ground_grid', 'resippy/utils/photogrammetry_utils.py'),
      ('AbstractImage.get_image_band', 'resippy/image_objects/abstract_image.py')],
     state=[('image bands', 'loaded from disk when first needed', 'get_image_band, read_band_from_disk')],
     observe=['cells of the images returned and written', 'georeference, nodata value, metadata', 'extents, look-up images, pixel values, masks'],
     note='Seeded search; oracle projects every cell with its own camera models and elevation interpolation, and allows either side where a cell is within '
          'a fraction of a pixel of a decision. One GDAL-internal crash on a failing disk is listed in known_findings.json.',
     tech='deterministic simulation: seeded disk faults, process death, memory exhaustion, schedules and histories, checked against reference cameras')

prop('C16', 'A simulated camera frame shows what the described camera would see',
     'A frame taken with the camera simulator from a base GeoTIFF has, in every pixel, the cubic interpolation of the base image\'s first band at the '
     'place on the ground (height 0) that the described camera - focal length, pixel pitch, pixel counts, boresight angles in their order, position, roll, '
     'pitch and yaw, each in the units given for it - sees there, and 0 where that is outside the base image, also when the camera works in another world '
     'projection than the base image; the frame comes with its size and a camera model that puts points on the ground at the pixels that show them. Frames '
     'do not depend on frames taken before, from other threads or other simulators, and do not change later; if reading the base image or memory '
     'fails, the call raises or the frame is the right one, and repeating it succeeds; the base image stays as it is.',
     ['inputs', 'histories', 'fault_sequences', 'schedules'],
     'all cameras, units, boresight orders and poses that look down at the base image (exact multiples of 90 degrees included), base images of all types, '
     'rotated, projected or geographic; sequences of frames and changes of projection; single disk faults, allocation failures, thread interleavings',
     'No test uses the simulator (only two demos that need files which are not there); units, orders, angles and projections are not tried anywhere.',
     ['resippy/utils/physical_camera_simulator.py', 'resippy/utils/photogrammetry_utils.py', E + 'earth_overhead_point_calculators/fixtured_camera.py',
      E + 'earth_overhead_point_calculators/ideal_pinhole_fpa_local_utm_point_calc.py', E + 'physical_camera/physical_camera_image_factory.py'],
     [('PhysicalCameraSimulator.create_overhead_image_object', 'resippy/utils/physical_camera_simulator.py'),
      ('solve_for_omega_phi_kappa', 'resippy/utils/photogrammetry_utils.py')],
     state=[('base image pixels', 'read when the first frame is taken', 'PhysicalCameraSimulator._gtiff_image_data')],
     observe=['pixels, size, metadata and camera model of each frame, when taken and at the end', 'bytes of the base image'],
     note='Seeded search; the oracle casts a ray per pixel with its own rotation matrices and allows for the hundredth of a pixel to which the library '
          'locates pixels.',
     tech='deterministic simulation: seeded disk faults, memory exhaustion, schedules and histories, checked against a reference camera')

prop('C17', 'Chip scores belong to their chips, trained networks to their labels',
     'Scoring an image chip by chip with a network returns, for every chip position it reports and in that order, what the network says of exactly that '
     'window of the image (three bands, resized and normalised as asked for), or its score for the label to find, for any image, chip size and overlap, '
     'with or without a progress ledger; the chips cover the image, which is never changed. Training that returned has used the chosen layers, weights, '
     'data and settings, and leaves the best network and a labels file that lists the classes in the order of its outputs. If the network, the ledger, the '
     'disk or memory fails the call raises or the result is right, repeating it succeeds, and threads that score or train at once do not disturb each other.',
     ['inputs', 'histories', 'fault_sequences', 'crash_points', 'schedules'],
     'all images, chip sizes, overlaps, normalisations, labels and numbers of outputs; sequences of scorings and trainings in shared directories; failing '
     'networks and ledgers, single disk faults, process deaths, failed allocations, thread interleavings, clocks that stand still or jump',
     'No test imports these modules (keras is not installed where the tests run).',
     ['resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py', 'resippy/image_recognition/neural_net_model_training/keras_model_training.py',
      'resippy/utils/image_utils/image_chipper.py', 'resippy/utils/file_utils.py'],
     [('chip_and_score_image', 'resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py'),
      ('train_model', 'resippy/image_recognition/neural_net_model_training/keras_model_training.py')],
     observe=['scores and positions', 'what the network is asked to do', 'labels file, stored network, log directory', 'progress reported'],
     note='Seeded search; keras, tensorflow and scipy.misc.imresize are stand-ins (none of them is installed), everything that resippy does around them is real.',
     tech='deterministic simulation: seeded failures of network, ledger, disk and memory, process death and schedules, checked against a reference')
