CALC = "resippy/image_objects/earth_overhead/earth_overhead_point_calculators/"
EO = "resippy/image_objects/earth_overhead/"

PROPS = [
 dict(id="C01", title="Pixel-to-ground and ground-to-pixel conversions undo each other",
  statement="For every georeferenced image type (map grid, per-pixel coordinate grid, rational polynomial, pinhole, distorted and Pix4D frame cameras), projecting a pixel inside the image to the ground at any altitude the model covers and projecting that ground point back returns the same pixel, and a visible ground point sent to the image and back returns the same ground point. This holds in the sensor's own coordinate system and when the caller asks in any other coordinate system, for any platform position, attitude, zoom and band.",
  over=["inputs", "configurations"], quant="all image types, georeferencing parameters, attitudes, altitudes, coordinate systems, bands and pixels inside the image",
  why="Tests close the loop for one GeoTIFF and one fixed pinhole camera at a few pixels; the guarantee is for every model, attitude and coordinate system.",
  files=[CALC+"abstract_earth_overhead_point_calc.py", CALC+"geotiff_point_calc.py", CALC+"igm_point_calc.py", CALC+"pinhole_camera.py", CALC+"opencv_point_calc.py", CALC+"pix4d_point_calc.py", CALC+"rpc_point_calc.py", CALC+"ideal_pinhole_fpa_local_utm_point_calc.py"],
  mech=[("iterative ground-coordinate solver", CALC+"abstract_earth_overhead_point_calc.py"), ("geotransform and its inverse", CALC+"geotiff_point_calc.py")],
  observe=["public pixel/ground conversion methods of each point calculator"],
  tech="closure oracle over recorded conversion calls, seeded workloads", note="Every observed conversion chain closed within tolerance on seeded workloads; solver domain limited to geometries a frame or satellite camera has (off-nadir below about 50 degrees)."),
 dict(id="C02", title="Sensor models obey their published projection equations",
  statement="A ground point is imaged where the model's published equations put it: perspective collinearity for pinhole cameras, Brown-Conrady distortion as in OpenCV for lens-distorted cameras, the Pix4D internal camera model, the RPC00B rational polynomials, and the affine transform of a map grid. This holds for every parameter set, ground position, altitude and unit of the parameters.",
  over=["inputs", "configurations"], quant="all model parameters, ground points, altitudes and parameter units",
  why="Tests pin a handful of fixed values of one pinhole camera; polynomial terms, distortion coefficients and attitude combinations are never exercised.",
  files=[CALC+"pinhole_camera.py", CALC+"opencv_point_calc.py", CALC+"pix4d_point_calc.py", CALC+"rpc_point_calc.py", CALC+"geotiff_point_calc.py", CALC+"ideal_pinhole_fpa_local_utm_point_calc.py"],
  mech=[("collinearity equations", CALC+"pinhole_camera.py"), ("rational polynomials", CALC+"rpc_point_calc.py"), ("distortion models", CALC+"opencv_point_calc.py")],
  tech="independent reference models (own collinearity, OpenCV, GDAL RPC) compared with every observed projection", note="Agreement with independently coded or third-party reference models on all observed projections; trusts OpenCV and GDAL as references."),
 dict(id="C03", title="Conversions are pointwise, whatever the array shape or coordinate system",
  statement="Converting one number, a one-dimensional array or a two-dimensional grid of points gives, point by point, the same answer as converting each point alone, and the answer has the shape of the question. Asking in another coordinate system equals asking in the sensor's own and transforming the answer, and answers do not depend on the order in which questions are asked.",
  over=["inputs", "histories"], quant="all input shapes, values, coordinate systems, bands and query orders, for every point calculator, terrain model and navigation record",
  why="Tests call each method with one shape; shape and coordinate-system combinations are unbounded.",
  files=[CALC+"abstract_earth_overhead_point_calc.py", CALC+"geotiff_point_calc.py", CALC+"igm_point_calc.py", "resippy/photogrammetry/dem/abstract_dem.py", "resippy/photogrammetry/dem/geotiff_dem.py"],
  mech=[("shape and projection normalisation", CALC+"abstract_earth_overhead_point_calc.py")],
  tech="metamorphic monitor: each array call is re-asked point by point, in other shapes, orders and coordinate systems", note="Metamorphic agreement on all observed calls."),
 dict(id="C04", title="Rotations, camera mounts and units combine consistently",
  statement="Rotation matrices are proper rotations equal to the product of their elementary rotations in the requested order, angles recovered from a matrix rebuild that matrix, and unknown orders are refused. A camera on a mount, with boresight angles, lever arm and platform attitude, has the camera-to-world rotation and position that composing those elements gives, boresight offsets solved from a pair of attitudes reproduce the pair, and none of it depends on the units in which angles or lengths are given.",
  over=["inputs", "configurations"], quant="all angles including the singular ones, all rotation orders, boresights, lever arms, units",
  why="Tests use a few axis-aligned angles and lever arms.",
  files=["resippy/utils/photogrammetry_utils.py", CALC+"fixtured_camera.py", CALC+"pinhole_camera.py"],
  mech=[("rotation matrix construction and angle recovery", "resippy/utils/photogrammetry_utils.py"), ("fixture composition", CALC+"fixtured_camera.py")],
  tech="rotation algebra oracle on every observed matrix, angle and mount", note="Algebraic oracles on random and singular angles."),
 dict(id="C05", title="Rays cast to terrain land on the terrain where the pixel first sees it",
  statement="Casting a pixel's line of sight onto a terrain model returns a ground point that lies on that line of sight and on the terrain surface, and no nearer point of the ray is below the terrain, up to the chosen sampling distance. It works for flat and rugged terrain, constant elevation, vertical and oblique rays, and any number and shape of pixels.",
  over=["inputs", "configurations"], quant="all terrains, sensors, pixels and sampling distances",
  why="Tests never cast rays; the intersection depends on terrain shape and look geometry.",
  files=[CALC+"abstract_earth_overhead_point_calc.py", "resippy/photogrammetry/dem/abstract_dem.py"],
  mech=[("ray marching with refinement", CALC+"abstract_earth_overhead_point_calc.py")],
  tech="geometric oracle (ray membership, terrain membership, first-hit search) on each observed intersection", note="First-hit verified by dense sampling along each ray, within the sampling distance."),
 dict(id="C06", title="Terrain models return the elevation of the surface they hold",
  statement="A terrain model answers any point inside it with the elevation of the nearest or bilinearly interpolated posts, in whatever coordinate system the point is given, and points outside with the elevation of the nearest edge. Reported minimum and maximum bound every answer, no-data posts can be removed without touching the others, and converting the vertical datum adds the geoid undulation and nothing else.",
  over=["inputs", "configurations"], quant="all grids, georeferencing, data types, points and coordinate systems",
  why="No test reads an elevation.",
  files=["resippy/photogrammetry/dem/geotiff_dem.py", "resippy/photogrammetry/dem/constant_elevation_dem.py", "resippy/photogrammetry/dem/abstract_dem.py", "resippy/photogrammetry/dem/dem_factory.py"],
  mech=[("nearest and bilinear lookup", "resippy/photogrammetry/dem/geotiff_dem.py")],
  tech="reference grid interpolation compared with every observed elevation", note="Agreement with an independent interpolator; geoid conversions are exercised with synthetic geoid grids (the EGM96 grid is not installed)."),
 dict(id="C07", title="Every orthorectified pixel shows the ground its own map coordinates name",
  statement="In an orthorectified image, the value at each output pixel is the source image sampled, with the chosen interpolation, where the sensor model images the map position that the output's own geotransform and projection give that pixel at terrain height; where the sensor does not see that position, or the elevation there is unknown, the output holds the no-data value. An ortho of the whole image spans exactly the ground its pixels cover. This holds for any sensor, terrain, output grid, projection, band list, mask and interpolation.",
  over=["inputs", "configurations"], quant="all images, sensors, terrains, output sizes, extents, projections, bands and interpolation orders",
  why="No test checks an ortho's pixel values against the sensor model.",
  files=["resippy/photogrammetry/ortho_tools.py", "resippy/utils/photogrammetry_utils.py", "resippy/utils/image_utils/image_utils.py"],
  mech=[("world-to-sensor resampling", "resippy/photogrammetry/ortho_tools.py"), ("ground grid and output geotransform", "resippy/utils/photogrammetry_utils.py")],
  tech="end-to-end oracle: each output pixel recomputed through the output's own geotransform", note="Pixels within the border tolerance of the image edge are not judged."),
 dict(id="C08", title="Image extents and per-pixel ground coordinates agree with the sensor model",
  statement="The ground extent reported for an image contains the ground position of each of its pixels and is no larger than they need, per-pixel ground coordinates and the coordinate-grid image made from a sensor image hold for each pixel what the sensor model gives on the terrain, and ground grids start, step and end as their extent and pixel counts say.",
  over=["inputs", "configurations"], quant="all sensors, image sizes, terrains, projections and grid sizes",
  why="Tests look at one extent.",
  files=["resippy/photogrammetry/ortho_tools.py", "resippy/utils/photogrammetry_utils.py", EO+"geotiff/geotiff_image.py"],
  mech=[("extent from image edges", "resippy/photogrammetry/ortho_tools.py")],
  tech="per-pixel reference evaluation of extents, coordinate images and grids", note="Checked on all pixels of small images."),
 dict(id="C09", title="GeoTIFF files and datasets preserve pixels, georeferencing and no-data",
  statement="Writing an image with its geotransform, projection and no-data value and reading it back, by this library or any other GeoTIFF reader, returns the same pixels, data type, bands, geotransform, projection and no-data value; in-memory datasets carry the same content, and warping keeps each value at its map position. Images written, warped or read earlier are not changed by later operations.",
  over=["inputs", "histories"], quant="all data types, sizes, geotransforms, projections, no-data values, compressions, and sequences of writes, reads and warps",
  why="Tests write one image and compare it with itself.",
  files=[EO+"geotiff/geotiff_image.py", EO+"geotiff/geotiff_metadata.py", EO+"geotiff/geotiff_image_factory.py"],
  mech=[("GDAL dataset creation and reading", EO+"geotiff/geotiff_image.py")],
  tech="offline comparison of recorded writes with independent GDAL reads over operation histories", note="Trusts the GDAL library as an independent reader."),
 dict(id="C10", title="ENVI images and headers are read and written faithfully",
  statement="An image written in ENVI format is read back identical by this library, by its image object and by other ENVI readers, for every data type, size and interleave; images and headers from other programs are read according to their declared type, interleave, byte order, offset and entries. A file too short for its header, or an interleave that is not supported, is refused instead of being answered with made-up samples.",
  over=["inputs", "configurations"], quant="all shapes, data types, interleaves, byte orders, offsets, header layouts and truncations",
  why="No test touches ENVI files in the offline suite.",
  files=["resippy/utils/envi_utils.py", "resippy/image_objects/envi/envi_image.py", "resippy/image_objects/envi/envi_metadata.py"],
  mech=[("header parser and interleave conversion", "resippy/utils/envi_utils.py")],
  tech="differential readers/writers (resippy, GDAL, raw bytes) and truncation faults", note="Trusts GDAL and a 20-line raw reader as references."),
 dict(id="C11", title="An image object serves the same pixels whichever way it is read",
  statement="For every image type, reading one band, reading the whole image, and taking bands of an image held in memory give the same pixels in the same band order, and replacing one band changes that band only. Images made from arrays, files or per-band files (with their acquisition metadata) keep band order, size, data type, position, time and sensor parameters.",
  over=["inputs", "histories"], quant="all image types, band counts, band orders and sequences of reads and replacements",
  why="Tests read one band of one file.",
  files=["resippy/image_objects/abstract_image.py", EO+"micasense/micasense_image.py", EO+"micasense/micasense_image_factory.py", EO+"physical_camera/physical_camera_image.py", EO+"digital_globe/view_ready_stereo/view_ready_stereo_image.py", EO+"igm/igm_image.py"],
  mech=[("band access", "resippy/image_objects/abstract_image.py")],
  tech="state-model monitor over random sequences of reads and replacements", note="Micasense and DigitalGlobe inputs are synthetic files; the fixed RedEdge frame size in the Micasense metadata is a documented assumption and not judged."),
 dict(id="C12", title="Spectral statistics use exactly the unmasked pixels",
  statement="The spectral mean, the demeaned image and the covariance of an image equal the textbook statistics of exactly the pixels that the mask leaves in: masked pixels, whatever garbage they hold, have no influence, and every pixel keeps its place and shape in the demeaned image. One- and two-dimensional arrangements of the same pixels agree, for any data type, band count and pixel order.",
  over=["inputs"], quant="all cubes, masks, data types, layouts and band counts",
  why="Tests use one cube size and one mask.",
  files=["resippy/spectral/spectral_image_processing_1d.py", "resippy/spectral/spectral_image_processing_2d.py", "resippy/utils/spectral_utils.py"],
  mech=[("masked mean and covariance", "resippy/spectral/spectral_image_processing_1d.py")],
  tech="reference statistics and garbage-injection metamorphic monitor", note="Float64 reference within rounding tolerance."),
 dict(id="C13", title="Anomaly and target detectors compute RX, ACE and SAM for every pixel",
  statement="For any image, target, mask and background statistics, the RX score of each pixel is its squared Mahalanobis distance, the ACE score is the squared cosine between pixel and target in whitened space and lies in [0,1], and the SAM score is the cosine between pixel and target and lies in [-1,1]. Scores stay with their pixels, do not depend on image arrangement or integer data type, and have the invariances of those definitions.",
  over=["inputs", "configurations"], quant="all images, data types, targets, masks and supplied or derived statistics",
  why="Tests look at one planted pixel of one cube.",
  files=["resippy/spectral/spectral_image_processing_1d.py", "resippy/spectral/spectral_image_processing_2d.py"],
  mech=[("detector formulas", "resippy/spectral/spectral_image_processing_1d.py")],
  tech="per-pixel reference formulas and invariance monitors", note="Well-conditioned covariances only."),
 dict(id="C14", title="Covariance equalization and principal components have their defining statistics",
  statement="Equalizing one scene to another gives a scene whose unmasked covariance is that of the other scene, by one linear transform (the symmetric square-root product) applied to every pixel, each scene's own mask deciding its statistics; equalizing a scene to itself changes nothing. The principal component image holds for each pixel its projections on the covariance eigenvectors in order of decreasing variance, whitened on request.",
  over=["inputs", "configurations"], quant="all pairs of scenes, masks, sizes, component counts",
  why="Tests check a single scene pair without masks.",
  files=["resippy/spectral/spectral_image_processing_1d.py", "resippy/spectral/spectral_image_processing_2d.py"],
  mech=[("matrix powers of the covariances", "resippy/spectral/spectral_image_processing_1d.py")],
  tech="defining-equation oracle on each observed transform", note="Well-conditioned scenes; components compared up to sign."),
 dict(id="C15", title="Spectra are read, flagged, converted and resampled faithfully",
  statement="Spectra read from each supported text format (SVC, CSV, ENVI plot, USGS library) have exactly the wavelengths, widths and reflectances of the file in the stated units, deleted channels and only those read as not-a-number, and reading never changes what is stored. Resampling to a sensor gives for each band the response-weighted mean of the spectrum over that band.",
  over=["inputs", "configurations"], quant="all spectra, file layouts, no-data values, band responses",
  why="The offline tests read no spectrum file and resample none.",
  files=["resippy/spectral/spectrum.py", "resippy/spectral/spectrum_factories/SVC/ascii/svc_spectral_factory.py", "resippy/spectral/spectrum_factories/csv/ascii/csv_spectral_factory.py", "resippy/spectral/spectrum_factories/envi/ascii/envi_ascii_plot_file_factory.py", "resippy/spectral/spectrum_factories/usgs/ascii/usgs_ascii_spectral_factory.py", "resippy/utils/units/unit_defs.txt"],
  mech=[("text parsers", "resippy/spectral/spectrum_factories"), ("resampling integral", "resippy/spectral/spectrum.py")],
  tech="write-then-read model of each format and reference quadrature", note="Files are synthetic, in the layout of each format."),
 dict(id="C16", title="Image chips are the windows they claim, and cover the image",
  statement="Every chip is exactly the window of the image at its reported position, in the requested bands and order, requested positions are kept unless they leave the image, and chipping a whole image at any size and overlap covers every pixel without leaving the image. Chips written to disk hold the same pixels under the right names, and a detection image gives each pixel the best score of the chips that cover it.",
  over=["inputs", "configurations"], quant="all image sizes, chip sizes, overlaps, bands, positions and scores",
  why="Chipping tests need data that is not available; none of them runs offline.",
  files=["resippy/utils/image_utils/image_chipper.py", "resippy/utils/image_utils/image_utils.py"],
  mech=[("window arithmetic and clamping", "resippy/utils/image_utils/image_chipper.py")],
  tech="unique-pixel images make every chip identify its window; coverage counting per pixel", note="Chips no larger than the image."),
 dict(id="C17", title="Image value and geometry utilities compute their defined result per pixel",
  statement="Normalizing, colormapping (continuous or binned, clipped, with no-data), blending, warping by coordinate grids, gridding of pixels at irregular coordinates, resizing, point-mask colour lookup and mutual information each give, for every pixel, the value their definition gives for that pixel, for any image size, data type, bin count and interpolation. Warped pixels from outside the source are no-data, and no-data takes no part in interpolation; a gridded pixel is the mean of the given pixels weighted by the inverse square of their distance.",
  over=["inputs", "configurations"], quant="all images, data types, palettes, bin counts, coordinates, interpolations",
  why="No test calls these utilities.",
  files=["resippy/utils/image_utils/image_utils.py", "resippy/utils/image_utils/image_mask_utils.py", "resippy/utils/image_utils/image_registration.py"],
  mech=[("palette indexing, warping", "resippy/utils/image_utils/image_utils.py")],
  tech="per-pixel reference recomputation", note="Spline orders above one are judged by range, exactness at pixel centres and uniform images."),
 dict(id="C18", title="GPS and UTC times convert exactly, at any instant and in any time zone",
  statement="Converting any UTC instant since 1980 to GPS time adds exactly the leap seconds inserted until then, converting back returns the instant, and GPS week and seconds of week recombine to the GPS time with the seconds inside one week. The results do not depend on the time zone or daylight-saving rules of the computer.",
  over=["inputs", "configurations"], quant="all instants since 1980-01-06, all process time zones",
  why="No test converts a time; errors show only within seconds of a leap second or in some time zones.",
  files=["resippy/utils/time_utils.py"],
  mech=[("leap second table lookup", "resippy/utils/time_utils.py")],
  tech="own leap-second model compared at every leap second, week rollover and in child processes under 14 time zones", note="Exhaustive around each leap second; the instant inside an inserted second is not judged."),
 dict(id="C19", title="Navigation records are interpolated in time exactly as recorded",
  statement="Asked at a recorded time, a navigation solution returns that record; asked between two records it returns their linear interpolation, per channel and in the documented units, for single times and arrays in any order. Headings take the short way through north, the coordinate system reported is the one the positions are in, and building a solution from any record table keeps each record's values together.",
  over=["inputs", "configurations"], quant="all record tables, times, channels, formats and coordinate systems",
  why="The navigation modules need pdal, so no test imports them.",
  files=["resippy/photogrammetry/nav/abstract_nav.py", "resippy/photogrammetry/nav/applanix_eo_nav.py", "resippy/photogrammetry/nav/applanix_sbet_nav.py"],
  mech=[("time interpolation", "resippy/photogrammetry/nav/abstract_nav.py")],
  tech="reference interpolation of generated trajectories, pdal replaced by an array-serving stand-in", note="pdal itself is a stub, so the binary SBET decoder is not covered."),
 dict(id="C20", title="Pix4D parameter files give the cameras they describe",
  statement="Reading Pix4D internal, external and calibrated parameter files returns, for each camera and image named in them, exactly the parameters written there, whatever the number of cameras and bands, order, blank lines or file ending, and the camera built from them for an image and band images ground points as those parameters say.",
  over=["inputs", "configurations"], quant="all parameter values, camera and image counts, layouts of the files",
  why="No test reads a Pix4D file.",
  files=["resippy/utils/pix4d_utils.py", CALC+"pix4d_point_calc.py"],
  mech=[("text parsers", "resippy/utils/pix4d_utils.py")],
  tech="write-then-read model of the files and a reference camera", note="Files are synthetic in the Pix4D layout."),
 dict(id="C21", title="Terrain obstruction masks mark exactly the pixels whose view is blocked",
  statement="A pixel is marked obstructed exactly when terrain between the sensor and the pixel's ground point rises above the line of sight by more than the sampling can hide. Flat terrain obstructs nothing, and the answer is the same for any direction of view.",
  over=["inputs", "configurations"], quant="all terrains, look directions, elevations, pixels",
  why="No test runs the obstruction analysis.",
  files=["resippy/photogrammetry/ortho_tools.py"],
  mech=[("marching from ground to sensor", "resippy/photogrammetry/ortho_tools.py")],
  tech="line-of-sight oracle on synthetic ridges in every direction", note="Margins around grazing rays are not judged."),
 dict(id="C22", title="Pixel-value lookups return the requested windows of the image",
  statement="Looking up values at pixel or ground locations returns, for each location and band, the statistic of exactly the window of the requested size around the nearest pixel, in the order of the locations, and locations outside the image are reported as outside.",
  over=["inputs", "configurations"], quant="all images, window sizes, locations, bands",
  why="No test calls it.",
  files=["resippy/photogrammetry/ortho_tools.py"],
  mech=[("window extraction", "resippy/photogrammetry/ortho_tools.py")],
  tech="reference window extraction compared with every observed lookup", note="Locations at an exact tie between two pixels are not judged."),
 dict(id="C23", title="Simulated camera images agree with the camera's geometry",
  statement="An image simulated for a camera from a map image holds at each pixel the map value at the ground point that the camera's own model gives for that pixel, for any camera attitude, mount, position and units.",
  over=["inputs", "configurations"], quant="all camera poses, mounts, lens parameters, map images",
  why="No test runs the simulator.",
  files=["resippy/utils/physical_camera_simulator.py"],
  mech=[("camera simulator", "resippy/utils/physical_camera_simulator.py")],
  tech="per-pixel reference sampling of every simulated pixel", note="Reference camera coded independently; terrain below the camera."),
 dict(id="C24", title="Text, table, file-listing and list helpers lose and invent nothing",
  statement="Text lists and tables read back as written (also when empty, or with empty entries), newline clean-up and case conversion keep the rest of the text, listings return exactly the files or folders that exist and match, whatever characters their names contain, and list reshaping keeps every element in order.",
  over=["inputs"], quant="all texts, directory contents, names, extensions, tables",
  why="No test calls these helpers.",
  files=["resippy/utils/file_utils.py", "resippy/utils/string_utils.py", "resippy/utils/csv_utils.py", "resippy/utils/numpy_and_array_utils.py", "resippy/utils/geom_utils.py"],
  mech=[("file helpers", "resippy/utils/file_utils.py")],
  tech="model of what was written compared with what is read", note="Listing covers names with an extension; list helpers are given entries of one type."),
 dict(id="C25", title="Coordinate helpers are geodetically right",
  statement="Reprojecting points or shapes gives the coordinates a geodetic library gives for the same point, in either direction and axis order used throughout; shifting a point by metres east and north moves it by that many metres; the local UTM projection is the zone and hemisphere of the position; affine transforms derived from extents map pixel corners to the extent.",
  over=["inputs", "configurations"], quant="all positions on Earth away from the poles, coordinate systems, shapes",
  why="Tests reproject a point or two.",
  files=["resippy/utils/photogrammetry_utils.py", "resippy/utils/proj_utils.py", "resippy/photogrammetry/crs_defs.py"],
  mech=[("reprojection", "resippy/utils/photogrammetry_utils.py")],
  tech="reference geodesy (pyproj with explicit axis order, geodesics, GDAL) on each observed helper call", note="Trusts PROJ as the geodetic reference."),
 dict(id="C26", title="Queries leave the caller's data, the objects and the process untouched",
  statement="No query, analysis or export modifies the arrays, lists and dictionaries passed to it; asking an object the same question again, after any sequence of other questions, gives the same answer; and none of it leaves changed process state (working directory, environment, numeric error settings, seed of random numbers) or files other than the requested output behind.",
  over=["inputs", "histories"], quant="all public queries, arguments and sequences of queries",
  why="Tests never look at their arguments after a call, nor ask twice.",
  files=["resippy"],
  mech=[("copying before modifying", "resippy")],
  tech="argument-snapshot and process-state monitors around every call of all other workloads", note="Covers the calls made by the workloads of the other properties."),
 dict(id="C27", title="Neural network image scoring and training use the chips and classes given",
  statement="Scoring an image with a trained network shows the network every chip of the image once, resized to the size asked for and normalized as asked for, and returns its scores for the chips in order, or the score of the label asked for, with the chips' positions. Image generators use the folders, sizes and options given; training compiles and fits the network asked for, with the final layers and weights given, on all training images, keeps the whole network of the epoch with the least validation loss, and writes the labels in the order of the network's classes.",
  over=["inputs", "configurations"], quant="all images, sample types, chip and target sizes, overlaps, normalizations, labels, networks and class folders",
  why="Keras is not a test dependency, so no test imports these modules.",
  files=["resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py", "resippy/image_recognition/neural_net_model_training/keras_model_training.py"],
  mech=[("chip, resize, normalize, score", "resippy/image_recognition/neural_net_model_scoring/keras_image_scoring.py")],
  tech="recording stand-in networks; each chip shown to them compared with a reference resampling of the window", note="Keras and TensorFlow are not installed and are replaced by stand-ins that record what they are given; what the networks compute is not covered."),
]

UNCLAIMED = []
