#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table, so that the two stay in step."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/aws/osml/"
PH, GD, IP, FE, FO = S + "photogrammetry/", S + "gdal/", S + "image_processing/", S + "features/", S + "formats/"

VG = "gated value-number dataflow analysis (random interpretation), compared with a reference value graph"
NOTE = "Holds for every input of the analysed functions over real arithmetic; trusts the analyser's models of Python, numpy and the documented contracts of scipy/pyproj/GDAL, and treats floating-point rounding as absent."
TESTS = "The existing tests compare a handful of sample points with a loose tolerance; "

T = []


def prop(id, title, statement, over, text, why, files, mech, technique=VG, level="proof", note=NOTE):
    T.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}, technique=technique, level=level, note=note))


prop("P01", "RPC ground-to-image projection is the RPC00B rational cubic",
     "For every set of rational polynomial coefficients and every ground point, the RPC model's pixel is the ratio of the two 20-term cubics in the normalised longitude, latitude and height (degrees, RPC00B term order), multiplied by the scale and shifted by the offset of its own axis: sample coefficients give x, line coefficients give y.",
     ["inputs", "configurations"], "all coefficient sets and ground points",
     TESTS + "a term used with the wrong coefficient, axis or scale can be invisible at points near the image centre or for sparse coefficient sets.",
     [PH + "rpc_sensor_model.py"], [("RPCPolynomial.evaluate", PH + "rpc_sensor_model.py"), ("RPCSensorModel.world_to_image", PH + "rpc_sensor_model.py")])
prop("P02", "RSM ground-to-image projection follows the RSM polynomial definition",
     "For every replacement sensor model, the pixel of a ground point is obtained by converting the point to the model's ground domain (geodetic, geodetic 0..2pi, or the local rectangular system), normalising it, taking the ratio of the row and column polynomials with the x power varying fastest, and denormalising; the ground-domain conversions are inverse to each other. In a sectioned model, the section whose row and column contain the low-order estimate (clamped to the section grid) answers, in both directions. Coefficient lists or ground domains of the wrong size are rejected with a ValueError.",
     ["inputs", "configurations"], "all polynomial orders, coefficient values, ground domain forms, section grids and points",
     TESTS + "they use one sectioned and one unsectioned model of a single domain form.",
     [PH + "replacement_sensor_model.py"], [("RSMPolynomial", PH + "replacement_sensor_model.py"), ("RSMGroundDomain", PH + "replacement_sensor_model.py"), ("RSMSectionedPolynomialSensorModel", PH + "replacement_sensor_model.py")])
prop("P03", "SAR projections compute the published SICD range / range-rate geometry",
     "For every SAR image geometry (polar format, range-azimuth compressed, closest approach, and planar grids), both projection directions compute the formulas of the SICD image projections volume: time of centre of aperture, platform state, range and range rate with adjustable parameters, ground-plane / constant-height / terrain contour intersection on the correct side of track, and the fixed-point iteration for ground to image (1 cm, ten rounds). Pixel coordinates are offset by the chip's first pixel and by the scene centre pixel in their own axes. Geometry without a ground-plane solution is reported as a ValueError, never as a point.",
     ["inputs", "configurations"], "all polynomial coefficients, unit vectors, pixels, ground points, heights and both sides of track",
     TESTS + "they exercise one image per grid type, all with zero adjustable parameters and no terrain or constant terrain.",
     [PH + "sicd_sensor_model.py"], [("COAProjectionSet and subclasses", PH + "sicd_sensor_model.py"), ("RRDotSurfaceProjection subclasses", PH + "sicd_sensor_model.py"), ("SICDSensorModel", PH + "sicd_sensor_model.py")])
prop("P04", "Projective and chip models map pixels by an exactly invertible projection",
     "A projective transform and its inverse undo each other exactly for every non-degenerate parameter set and number of points, and a fitted transform is the least-squares solution for all of its control points. A model for a chip answers for chip pixel p what the full-image model answers for the full-image pixel corresponding to p, and vice versa, for every chip correspondence; the corner-derived model maps longitude/latitude to pixels through the fitted transform in both directions.",
     ["inputs", "configurations"], "all transforms, control point sets, chips, pixels and ground points",
     TESTS + "they use one transform and one chip.",
     [PH + "transforms.py", PH + "projective_sensor_model.py", PH + "chipped_image_sensor_model.py"], [("ProjectiveTransform", PH + "transforms.py"), ("ChippedImageSensorModel", PH + "chipped_image_sensor_model.py")])
prop("P05", "Georeferenced images map pixels by the affine geotransform and its inverse",
     "For every invertible six-parameter geotransform, image to world applies x = g0 + g1 col + g2 row, y = g3 + g4 col + g5 row in the image's coordinate system (native system converted to WGS84 in x,y order when one is given, degrees converted to radians), and world to image is its exact inverse. A geotransform that cannot be inverted is rejected with a ValueError when the model is built.",
     ["inputs", "configurations"], "all geotransforms including rotated and sheared ones, with and without a projected coordinate system",
     TESTS + "they use north-up geotransforms only.",
     [PH + "gdal_sensor_model.py"], [("GDALAffineSensorModel", PH + "gdal_sensor_model.py")])
prop("P06", "Image-to-ground searches minimise the true pixel error from the documented start",
     "Every iterative image-to-ground solution minimises the distance in pixels between the requested pixel and the model's own projection of the candidate point, taken at the elevation the answer will have, starting from the documented default or from the caller's initial guess and search distance options. The composite model starts the precise model at the approximate model's answer for the same pixel, keeping the caller's other options, and never changes the caller's options.",
     ["inputs", "configurations"], "all pixels, elevation models and option dictionaries (keys as strings or enumeration members)",
     TESTS + "a search that uses the wrong objective, start, simplex or bounds still converges for the sampled pixels.",
     [PH + "rpc_sensor_model.py", PH + "replacement_sensor_model.py", PH + "composite_sensor_model.py"], [("RPCSensorModel.image_to_world", PH + "rpc_sensor_model.py"), ("RSMPolynomialSensorModel.image_to_world", PH + "replacement_sensor_model.py"), ("CompositeSensorModel", PH + "composite_sensor_model.py")])
prop("P07", "Elevation models are consulted at the answer's position and passed on unchanged",
     "When a caller supplies an elevation model, every sensor model's image-to-world answer has the elevation that model gives for the answer's longitude and latitude; without one, the documented default elevation. Wrapping models (chip, composite, sectioned) pass the caller's elevation model and options to the model they wrap. A constant elevation model sets exactly its constant and leaves longitude and latitude alone.",
     ["inputs", "configurations"], "all sensor models, pixels and elevation models",
     TESTS + "the elevation models used are constant, so a lookup at the wrong place or a dropped argument goes unseen.",
     [PH + "elevation_model.py", PH + "rpc_sensor_model.py", PH + "replacement_sensor_model.py", PH + "sicd_sensor_model.py", PH + "projective_sensor_model.py", PH + "gdal_sensor_model.py", PH + "chipped_image_sensor_model.py", PH + "composite_sensor_model.py"], [("SensorModel.image_to_world implementations", PH), ("ConstantElevationModel", PH + "elevation_model.py")])
prop("P08", "Projections do not influence each other",
     "What a sensor model answers depends only on its metadata and on the arguments of the call: after any sequence of projections in either direction, with or without elevation models and options, every answer is the one a newly built model gives. A projection leaves the coordinate and the options it was given as they were, and the coordinate it returns is the caller's own: changing it afterwards, or changing the coordinate that was passed in, has no effect on later answers.",
     ["histories", "inputs"], "all sequences of projections on one model, for every sensor model class",
     TESTS + "each test asks a freshly built model once or twice, so state left behind by an earlier projection, or shared with the caller, is not seen.",
     [PH + "rpc_sensor_model.py", PH + "replacement_sensor_model.py", PH + "sicd_sensor_model.py", PH + "projective_sensor_model.py", PH + "gdal_sensor_model.py", PH + "chipped_image_sensor_model.py", PH + "composite_sensor_model.py", PH + "coordinates.py"], [("SensorModel.image_to_world and world_to_image implementations", PH)])
prop("P13", "Coordinates: named components, copies, and WGS84 conversion",
     "A coordinate's named components (x, y, z, longitude, latitude, elevation, row, column) always read and write the same stored vector, constructing one copies its input as floating-point numbers, and vectors of the wrong size are rejected with a ValueError. Geodetic and earth-centred coordinates convert through one WGS84 transformation in radians, in the two opposite directions.",
     ["inputs", "histories"], "all coordinate values and sequences of component writes",
     TESTS + "they read a few components of a few values.",
     [PH + "coordinates.py"], [("WorldCoordinate, GeodeticWorldCoordinate, ImageCoordinate", PH + "coordinates.py"), ("geodetic_to_geocentric / geocentric_to_geodetic", PH + "coordinates.py")])
prop("P14", "Formatted coordinates denote the coordinate they format",
     "Every longitude and latitude formatted as degrees, minutes and seconds has minutes and seconds in 0..59, a hemisphere letter that matches the sign, and denotes the angle truncated to the whole second; the radian and elevation directives print the stored value. Characters of the format string that are not directives are kept.",
     ["inputs"], "all longitudes, latitudes, elevations and format strings",
     TESTS + "rounding carries (59.9999 seconds) are reached by almost no sampled value.",
     [PH + "coordinates.py"], [("GeodeticWorldCoordinate.__format__ / to_dms_string", PH + "coordinates.py")])

prop("P16", "Metadata values reach the model parameter they describe",
     "For every TRE, SICD, SIDD, ground control point or geotransform content, the built sensor model is the model whose every parameter is the value of the metadata field of that meaning: RPC00B fields and coefficients (placed by their index attribute), RSMIDA/RSMPCA/RSMPIA fields with each section placed by its row and column number whatever the TRE order, CSCRNA and GCP corners paired with the like-named pixel and converted to radians, SICD and SIDD geometry by grid type and image formation algorithm (polynomial coefficients placed by exponent), and SIDD chip corners paired by name. No model is built when the TRE that defines it is absent, when RPC00B reports SUCCESS other than 1, with fewer than four control points, or when several RSMPCA TREs have no RSMPIA.",
     ["inputs", "configurations"], "all metadata values and all orders of TREs and fields; RSM polynomial orders up to 2 and section grids up to 3 by 2",
     TESTS + "a swapped pair of fields is visible only if the two sampled values differ enough, and RSM section grids, SICD algorithms and SIDD chips have one sample each or none.",
     [GD + "rpc_sensor_model_builder.py", GD + "rsm_sensor_model_builder.py", GD + "projective_sensor_model_builder.py", GD + "gdal_sensor_model_builder.py", GD + "sicd_sensor_model_builder.py", GD + "sidd_sensor_model_builder.py", GD + "xmltre_utils.py"], [("build() of each SensorModelBuilder", GD), ("get_tre_field_value / parse_rpc_coefficients", GD + "xmltre_utils.py")])
prop("P17", "Unusable metadata yields no model, never an exception",
     "When a TRE field is absent, has no value or does not parse as a number, when a coefficient group is empty or its index is missing, unparsable or out of range, when an RSM section has no polynomial, when SAR XML is empty, unparsable or lacks required parts, or when a geotransform cannot be inverted, the builder for that metadata returns None and the factory returns the model the remaining metadata supports; a chip TRE that cannot be parsed leaves the model unchanged. Optional RSM reference point fields never prevent a model. No exception leaves build().",
     ["inputs", "fault_sequences"], "every required field of every supported TRE, in each of the malformed forms listed",
     "The tests check that a few helper functions raise ValueError; nothing exercises a builder or the factory with malformed metadata field by field.",
     [GD + "rpc_sensor_model_builder.py", GD + "rsm_sensor_model_builder.py", GD + "projective_sensor_model_builder.py", GD + "gdal_sensor_model_builder.py", GD + "sicd_sensor_model_builder.py", GD + "sidd_sensor_model_builder.py", GD + "sensor_model_factory.py", GD + "xmltre_utils.py", PH + "gdal_sensor_model.py"], [("exception flow of build()", GD), ("ChippedImageInfoFacade", GD + "sensor_model_factory.py")],
     technique="exceptional-path analysis of the builders over the gated value graph: no raise outcome feasible, result None under each malformed condition")
prop("P18", "The factory picks the best available model, and only from selected types",
     "For every combination of available metadata and selected model types, the factory returns: as precision model the SIDD or SICD model of the first SAR XML segment that is one (SICD only if selected), else RSM, else RPC; as approximate model the CSCRNA corner model, else the ground control point model (four or more points), else the geotransform model; RSM, RPC and CSCRNA models refer to the full image and are wrapped with the ICHIPB correspondence (column and row of the same grid point) and full-image size when the image is a chip; a composite when both kinds exist, else whichever exists, else None. A TRE or geotransform model is never built from a type that was not selected.",
     ["inputs", "configurations"], "all subsets of metadata and of selected types, one or two SAR segments",
     "The tests build models from about ten sample images, which cover few combinations and never pass a restricted set of types together with several sources.",
     [GD + "sensor_model_factory.py"], [("SensorModelFactory.build", GD + "sensor_model_factory.py"), ("ChippedImageInfoFacade", GD + "sensor_model_factory.py")])
prop("P25", "NITF extension segments are read and re-encoded without loss",
     "For every data extension segment, the re-encoded header consists of the segment's own values in MIL-STD-2500C order and widths (alphanumeric values left justified and space filled, numbers zero filled) followed by the user-defined subheader of its stated length. Segments are found by name across all metadata documents in file order; segment text is the decoded base64 value when there is one, otherwise the embedded XML element, otherwise none. A missing field or value is a ValueError.",
     ["inputs"], "all field values and subheader lengths, any number of segments",
     "The one test checks the first five characters and the total length of one header.",
     [GD + "nitf_des_accessor.py"], [("NITFDESAccessor.extract_des_header", GD + "nitf_des_accessor.py"), ("NITFDESAccessor.extract_desdata_xml", GD + "nitf_des_accessor.py")])
prop("P09", "A tile's content does not depend on the tiles made before it",
     "The encoding request of a tile, and the SICD or SIDD metadata written into it, are a function of the image, the factory's settings and the requested window alone: a factory that has already made other tiles produces the same tile, with the same chip origin, size and corners, as a new one.",
     ["histories", "inputs"], "all earlier tile windows and sizes (successful ones), all windows",
     "The tests make a few tiles per factory and look at each one's size; metadata carried over from an earlier tile is visible only by comparing the metadata of a later tile with that of a fresh factory.",
     [IP + "gdal_tile_factory.py", IP + "sicd_updater.py", IP + "sidd_updater.py"], [("GDALTileFactory.create_encoded_tile", IP + "gdal_tile_factory.py"), ("SICDUpdater / SIDDUpdater.update_image_data_for_chip", IP)])
prop("P10", "Tiles and configuration scopes clean up on every exit",
     "When create_encoded_tile ends, for whatever reason (success, encoding failure or exception, the file missing or unreadable, a read error), no temporary in-memory file, side-car file or open handle of it remains, no two tiles use the same temporary file, and a tile is returned only if encoding succeeded and the encoder had been closed before the file was read. GDALConfigEnv sets its options inside the scope only, and on leaving it, normally or by an exception, puts every option back to its previous value or unset state, also when different scopes are nested or one is used again later; the exception is passed on and the caller's dictionaries are left alone.",
     ["fault_sequences", "histories", "inputs"], "every exit of tile creation under each failure of the encoder and virtual file system; all option values and nestings of two scopes",
     "The tests run the success path; failures of the encoder or file system are not injected, and leftovers in GDAL's in-memory file system are not looked for.",
     [IP + "gdal_tile_factory.py", GD + "gdal_config.py"], [("GDALTileFactory.create_encoded_tile", IP + "gdal_tile_factory.py"), ("GDALConfigEnv", GD + "gdal_config.py")],
     technique="resource-state (typestate) analysis over all exit paths of the gated value graph, against a model of the GDAL virtual file system and configuration options")
prop("P11", "Chip metadata locates the chip's pixels in the original image",
     "A NITF tile made with a sensor model carries the four ground corners of exactly its own window, in the documented order. A SICD tile's FirstRow and FirstCol are the image's own plus the window's origin and NumRows, NumCols its size (scaling is refused); a SIDD tile's chip size is the output size and its four chip corners are the tile's corner pixels in the original full image, composed with the image's own chip transform if it is already a chip. The NITF header fields copied into the tile are those of the segment whose metadata is written, SIDD taking precedence over SICD; nothing of this is written to other formats.",
     ["inputs", "configurations"], "all windows, output sizes, sensor models, and SICD/SIDD documents that are themselves chips",
     "The tests check one window of one image per metadata type, with equal or zero offsets that hide swaps and double counting.",
     [IP + "gdal_tile_factory.py", IP + "sicd_updater.py", IP + "sidd_updater.py"], [("GDALTileFactory.create_new_igeolo / create_encoded_tile", IP + "gdal_tile_factory.py"), ("SICDUpdater", IP + "sicd_updater.py"), ("SIDDUpdater", IP + "sidd_updater.py")])
prop("P19", "Pixel types and ranges map onto the full output range",
     "The value range of every GDAL pixel type is that type's smallest and largest value. Without range adjustment each band maps the full range of its input type onto the full range of the output type; with it, each band maps its own histogram range (MINMAX) or suggested range (DRA) onto the output range, in band order. The suggested range leaves out the outlying counts at each end and is widened and clamped to the occupied histogram buckets, whose positions map linearly onto the value range; a histogram is never requested for an empty range, and an image with a single pixel value is handled.",
     ["inputs", "configurations"], "all pixel types, band counts up to 3, histograms of symbolic counts (small bucket numbers), statistics and output types",
     "The tests compute the ranges of two histograms and one image; zero-valued first buckets, single-valued images, several bands with different statistics and most types are not sampled.",
     [GD + "gdal_utils.py", GD + "dynamic_range_adjustment.py"], [("get_type_and_scales / get_minmax_for_type", GD + "gdal_utils.py"), ("DRAParameters.from_counts", GD + "dynamic_range_adjustment.py")])
prop("P27", "A tile is encoded as asked: window, size, format, type and compression",
     "Every tile is one translation of the factory's image over exactly the requested window (column, row, width, height), to exactly the requested output size (width, height) if any, in the requested format with the pixel type and scaling of the range adjustment settings, and with the compression option that the format and pixel type call for; JPEG 2000 is not used for floating point pixels. Image corner coordinates are given for NITF tiles with a sensor model only.",
     ["inputs", "configurations"], "all windows and sizes; every format, compression and pixel type combination",
     "The tests sample about ten combinations and mostly square windows, which hide swapped extents.",
     [IP + "gdal_tile_factory.py"], [("GDALTileFactory.create_encoded_tile", IP + "gdal_tile_factory.py")])
prop("P15", "Digital elevation models answer with the bilinear height of the right tile",
     "For every location, the SRTM and generic tile sets name the tile of the one-degree cell that contains it (south west corner, hemisphere letters, zero padding; none outside the coverage); the tile factory loads band one of exactly that raster below its directory (S3 URLs through GDAL's virtual file system) with the model of its geotransform and its statistics, or reports no tile when it is missing or has no geotransform; and the elevation set is the bilinear interpolation of that tile's posts at the pixel of the location, column and row on the right axes. Longitude and latitude never change, and the elevation is left alone where there is no tile. Answers do not depend on which tiles were looked up before or what the cache holds, and a cached tile is not loaded again.",
     ["inputs", "histories"], "all locations, tile contents (grids 2x3 and 3x4 of symbolic heights), and lookup sequences over present and missing tiles with cache sizes 1, 2 and default",
     TESTS + "the grid tested is square and one tile is used, so swapped axes, wrong cache keys and cells west or south of zero are hardly sampled.",
     [PH + "digital_elevation_model.py", PH + "generic_dem_tile_set.py", PH + "srtm_dem_tile_set.py", GD + "gdal_dem_tile_factory.py"], [("DigitalElevationModel.set_elevation / get_interpolation_grid", PH + "digital_elevation_model.py"), ("find_tile_id", PH), ("GDALDigitalElevationModelTileFactory.get_tile", GD + "gdal_dem_tile_factory.py")],
     note=NOTE + " Posts are taken to lie at whole pixel coordinates of the tile's model, as the repository's tests define it; void (no-data) posts are not treated specially.")
prop("P20", "Web Mercator tiles partition the map and are found by location",
     "At every zoom level z the tiles of a tile set are the cells of the 2^z by 2^z grid over the Web Mercator square (column from the west, row from the south), with geodetic bounds (min lon, min lat, max lon, max lat) in radians and the tile set's pixel size; neighbouring tiles share their edge exactly. The tile found for a location inside the square is one of these tiles and its bounds contain the location, on outer edges too. The limits of an area are the extreme columns and rows of its boundary points' tiles, and tile sets are found by their identifiers only.",
     ["inputs", "configurations"], "all locations in the square, rows and columns; zoom levels 0..24; both tile sets; areas of up to four points",
     "The tests look at two tiles and one location.",
     [IP + "map_tileset.py", IP + "map_tileset_wmq.py", IP + "map_tileset_factory.py"], [("WebMercatorQuadMapTileSet.get_tile / get_tile_for_location", IP + "map_tileset_wmq.py"), ("MapTileSet.get_tile_matrix_limits_for_area", IP + "map_tileset.py"), ("MapTileSetFactory.get_for_id", IP + "map_tileset_factory.py")])

prop("P21", "Feature image geometries are found, stored and geolocated consistently",
     "A feature's image geometry is taken from the first of imageGeometry, imageBBox and (only if deprecated names are allowed) geom_imcoords, detection.pixelCoordinates, bounds_imcoords that is present; updating rewrites each of these that is present, in its own format, and adds none; what is set is what is read back. Geolocating a collection gives every feature with image coordinates its geometry of the same type (all vertices, rings and parts in order, degrees and metres), its bbox (from imageBBox) and its centre, using positions interpolated bilinearly from one grid of sensor model positions (with the elevation model, if any) that covers every image geometry and box with a 10 pixel margin; features without image coordinates and unrelated properties stay unchanged.",
     ["inputs", "configurations"], "all coordinates, geometry types, combinations of properties, mixed collections, grid sizes, sensor and elevation models",
     "The tests geolocate a few features of one kind at a time with loose tolerances; mixed collections and rarely used property combinations are not sampled.",
     [FE + "imaged_feature_property_accessor.py", FE + "geolocation.py"], [("ImagedFeaturePropertyAccessor", FE + "imaged_feature_property_accessor.py"), ("LocationGridInterpolator", FE + "geolocation.py"), ("Geolocator", FE + "geolocation.py")],
     note=NOTE + " shapely and geojson are represented by a reference program of their documented behaviour; vertex counts are those of the enumerated shapes; empty geometries are outside the claim.")
prop("P22", "The spatial index answers queries with the right features",
     "A feature index holds exactly one entry per feature, in feature order: its image geometry, or its geographic geometry when asked to; features without one are never found. Intersection queries ask for the intersects predicate, nearest queries use the given distance (default 50 pixels or 1 degree), and every index found is answered with the feature at that index.",
     ["inputs", "configurations"], "all feature collections mixing features with and without geometries, both geometry choices, all distances",
     "The tests index one small collection in which every feature has an image geometry.",
     [FE + "feature_index.py"], [("STRFeature2DSpatialIndex", FE + "feature_index.py")],
     note=NOTE + " shapely's STRtree is trusted to find the geometries matching a query.")

prop("P28", "SAR pixels become power and display values by the documented formulas",
     "For every SICD pixel type, complex values are formed as documented (amplitude, through the lookup table if there is one, times cosine and sine of the phase as a fraction of 256; real and imaginary parts as stored), power is the sum of their squares, computed without overflowing the pixel type, and decibels ten times its logarithm. The stretches give 255 times the value (quarter power: its square root) over the scale factor times the mean of the finite values (or the given mean), clipped to 0..255; the linear mapping takes the range to 0..1 and a constant image to 0.5. Shapes are kept and the pixels passed in are not changed; an unknown pixel type is a ValueError.",
     ["inputs", "configurations"], "all pixel values (arrays of shapes 1x1, 2x2 and 1x3), lookup tables, scale factors, means and pixel types",
     "The tests compare two images with stored results and a few random arrays; lookup tables, non-finite values, constant images and integer pixels large enough to overflow are not sampled.",
     [IP + "sar_complex_imageop.py"], [("image_pixels_to_complex / complex_to_power_value", IP + "sar_complex_imageop.py"), ("histogram_stretch / quarter_power_image / linear_mapping", IP + "sar_complex_imageop.py")])
prop("P26", "Orthophoto tiles show the right ground pixels, colors and transparency",
     "Every pixel of an orthophoto tile (width, height) is the linear interpolation of the image at the position the sensor model gives for its ground location (longitudes from west to east over the columns, latitudes from north to south over the rows, at the elevation of the image centre), positions being interpolated bilinearly from a 3 by 3 grid over the tile. The pixels come from the overview whose resolution best matches the tile, over exactly the window that the tile covers. The adjustment asked for (none, MINMAX with each band's range, DRA with each band's own histogram; quarter power for two band SAR) makes them 8-bit, at most three bands, encoded as PNG with bands in their order and an alpha channel that is opaque where no band is zero; no tile is made where the tile's grid lies outside the image or the sensor model has no answer.",
     ["inputs", "configurations"], "all boxes, sensor models, image sizes, numbers of overviews and pixel values (windows of 2x2 symbolic pixels); tile sizes 2x2, 2x3, 2x5, 3x2, 3x3 and 4x3; 1 to 4 bands; all adjustments, with and without recorded band ranges",
     TESTS + "the tests check that a tile of a few images is made, square tiles only and without looking at the position or color of any pixel.",
     [IP + "gdal_tile_factory.py", IP + "sar_complex_imageop.py"], [("GDALTileFactory.create_orthophoto_tile", IP + "gdal_tile_factory.py"), ("GDALTileFactory._normalize_image_for_display", IP + "gdal_tile_factory.py")],
     note=NOTE + " cv2.remap, copyMakeBorder and imencode are represented by their documented behaviour; scipy's degree one spline is evaluated exactly.")

prop("P23", "SICD and SIDD data classes bind the published schemas",
     "For every SICD 1.2.1 / 1.3.0 and SIDD 1.0 / 2.0 / 3.0 document element, the data classes that parse and write it have exactly the attributes and elements of the published schema: under the same names and namespaces, in the schema's order, single, optional or repeated as the schema says, with the same value types, enumerations and extensions, and each under the Python member named after it. A valid document is therefore read into the fields the builders ask for, and a written one is valid in structure.",
     ["inputs"], "all elements, attributes and enumerations reachable from the document element of the five schemas",
     "The existing tests parse a handful of documents, which leave most optional elements out; a misspelled or misplaced field is silently absent.",
     [FO + "sicd/models/sicd_v1_2_1.py", FO + "sicd/models/sicd_v1_3_0.py", FO + "sidd/models/sidd_v1_0_0.py", FO + "sidd/models/sidd_v2_0_0.py", FO + "sidd/models/sidd_v3_0_0.py"], [("SICD data classes", FO + "sicd/models/"), ("SIDD data classes", FO + "sidd/models/")],
     technique="structural comparison of XML schema and dataclass syntax trees, simultaneously from the document element",
     note="Complete for the structure of the schemas (copied from the repository into /verif/oracle/schemas); xsdata itself is trusted. Value restrictions other than enumerations (patterns, ranges) are not compared.")

prop("P24", "Metadata XML cannot expand entities or reach outside the document",
     "For every XML document that comes with an image, however it was crafted, reading it never resolves an external entity. Documents that GDAL reports for tagged record and data extension segments are refused when they declare entities, so that a small document cannot grow without bound while it is read.",
     ["inputs"], "all documents and all parser call sites of the package",
     "The tests read well formed metadata of sample images; none declares an entity, and another parser gives the same results on them.",
     [GD + "nitf_des_accessor.py", GD + "gdal_utils.py", GD + "sicd_sensor_model_builder.py", GD + "sidd_sensor_model_builder.py"], [("NITFDESAccessor", GD + "nitf_des_accessor.py"), ("load_gdal_dataset", GD + "gdal_utils.py")],
     technique="syntax-tree lint over every module: references to XML parsers resolved through imports, scopes and aliases, against a table of parsers that expand entities",
     note="Trusts defusedxml to refuse entity declarations and xsdata's default handler (expat) not to resolve external entities. A parser reached by a name computed at run time is not seen.")

NA = [
    dict(id="P30", title="Image-to-ground searches converge to the requested pixel",
         statement="For every sensor model, pixel inside the image and terrain, projecting the ground point found for the pixel back into the image returns the pixel to a small fraction of a pixel.",
         quantifier={"over": ["inputs", "configurations"], "text": "all models, pixels and elevation models"},
         why_tests_cant="The tests project a few pixels of a few images.",
         anchors={"files": [PH + "rpc_sensor_model.py", PH + "replacement_sensor_model.py", PH + "sicd_sensor_model.py"], "mechanism": [{"name": "scipy.optimize.minimize (Nelder-Mead)", "where": PH + "rpc_sensor_model.py"}]},
         reason="Whether a simplex search or the SAR fixed-point iteration converges depends on the run-time coefficients and terrain; no static argument in reach bounds it. What is minimised, from where, and what is made of the result is decided under P03 and P06."),
    dict(id="P31", title="SAR terrain intersections are accurate to a metre",
         statement="For every SAR image and elevation model, the point found on the terrain lies on the pixel's range / range-rate contour to within the spacing of the terrain.",
         quantifier={"over": ["inputs", "configurations"], "text": "all images and elevation models"},
         why_tests_cant="One image and a constant surface are tested.",
         anchors={"files": [PH + "sicd_sensor_model.py"], "mechanism": [{"name": "DEMRRDotSurfaceProjection", "where": PH + "sicd_sensor_model.py"}]},
         reason="The error of sampling and interpolating the contour depends on curvature and terrain at run time. The sampling, the crossing test and the interpolation themselves are decided under P03."),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in sorted(T, key=lambda q: q["id"]):
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
        for p in NA:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
    for p in sorted(T, key=lambda q: q["id"]):
        c = f"python3 /verif/check.py {p['id']}"
        m["checks"].append({"property": p["id"], "quick_cmd": c + " --tier quick", "thorough_cmd": c + " --tier thorough", "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
