na("C90", "Iterative image_to_world searches converge to sub-pixel accuracy",
   "For every RPC or RSM polynomial model of a real image and every pixel, the ground position found by image_to_world re-projects to within half a pixel of that pixel.",
   "every pixel of every valid model", "tests sample a few pixels", [PH + "rpc_sensor_model.py", PH + "replacement_sensor_model.py"], [("scipy Nelder-Mead", PH + "rpc_sensor_model.py")],
   "convergence of scipy's Nelder-Mead is outside the toolkit's code and is an unbounded floating point iteration whose encoding is out of reach; what is searched for and what is returned is claimed in C06")
na("C91", "SICD/SIDD metadata survives the XML round trip",
   "Parsing SICD or SIDD XML and writing it back without edits yields equivalent XML for every valid document.",
   "every valid document", "tests round-trip a few files", [IP + "sicd_updater.py", IP + "sidd_updater.py"], [("xsdata parser/serializer", IP + "sicd_updater.py")],
   "the round trip is performed by the xsdata library driven by ~20k lines of generated dataclasses; there is no toolkit logic to encode symbolically", over=("inputs",))
na("C92", "Encoded tiles decode to the requested pixels",
   "The bytes of an encoded tile decode to exactly the source pixels of the requested window (lossless formats).",
   "every window and raster", "tests decode a few tiles", [IP + "gdal_tile_factory.py"], [("gdal.Translate to /vsimem", IP + "gdal_tile_factory.py")],
   "pixel transport and compression happen inside GDAL/OpenCV native code; the window, format and options handed to them are what the toolkit decides and are claimed separately")
prop("C15", "SAR pixels map to the range/Doppler contour of the projection standard",
     "For each image formation type (range-azimuth, PFA, INCA and plane grids) a grid position yields the projection set's range, range rate, time, platform position and velocity exactly as the SICD projection equations define, from the time, platform and algorithm polynomials. "
     "Adjustable offsets of position, velocity and range bias are applied, and leaving them out is the same as zero.",
     "every grid position, polynomial coefficient, algorithm parameter and adjustable offset within the degree bound",
     "tests project the scene centre of three products, where higher-order terms and offsets vanish",
     [PH + "sicd_sensor_model.py"], [("COAProjectionSet and its four subclasses: precise_rrdot_computation", PH + "sicd_sensor_model.py")])
prop("C16", "Range/Doppler contours meet planes, height surfaces and terrain correctly",
     "Intersecting a range/range-rate contour with a ground plane gives the point on the plane at exactly that range and range rate from the platform, on the imaged side. "
     "Intersecting with a constant height surface iterates to a point at that height within its tolerance; with terrain it returns the crossing of contour and elevation model, the one the caller's selection asks for.",
     "every platform state, range, range rate, plane, target height and elevation profile within the bounds",
     "tests check a few scene centres on flat terrain; looking side, tilted planes and multiple crossings are not sampled",
     [PH + "sicd_sensor_model.py"], [("GroundPlaneRRDotSurfaceProjection", PH + "sicd_sensor_model.py"), ("HAERRDotSurfaceProjection", PH + "sicd_sensor_model.py"), ("DEMRRDotSurfaceProjection", PH + "sicd_sensor_model.py")],
     over=("inputs", "configurations"))
prop("C17", "SAR sensor model round trips between pixels and ground",
     "A SICD sensor model projects the pixel's own grid position (spacing, first pixel and scene centre applied) through the range/Doppler projection, onto terrain when an elevation model is given and otherwise onto its default surface, and returns geodetic coordinates. "
     "world_to_image returns the pixel whose projection to the ground comes back to the scene point, without changing it.",
     "every pixel, first pixel, scene centre pixel, sample spacing and scene point near the scene",
     "tests round trip a handful of pixels of three chips with fixed offsets",
     [PH + "sicd_sensor_model.py"], [("SICDSensorModel.image_to_world / world_to_image", PH + "sicd_sensor_model.py")])
prop("C18", "SICD and SIDD metadata feed the right fields into the SAR model",
     "A sensor model built from SICD or SIDD metadata computes, for every pixel, the contour that the metadata's fields define: sample spacings, scene centre, first row/column, plane axes, time and platform polynomials, algorithm parameters and looking side each used in their own role. "
     "Polynomial coefficients listed sparsely or in any order mean the same polynomial.",
     "every value of the metadata fields, every coefficient order, every pixel",
     "tests use one document per product type, in which many fields are zero or equal so swaps go unnoticed",
     [GD + "sicd_sensor_model_builder.py", GD + "sidd_sensor_model_builder.py"],
     [("SICDSensorModelBuilder.build and poly helpers", GD + "sicd_sensor_model_builder.py"), ("SIDDSensorModelBuilder.build", GD + "sidd_sensor_model_builder.py")],
     over=("inputs", "configurations"))
prop("C19", "NITF metadata records feed the right fields into the sensor models",
     "Sensor models built from RPC00B, RSM (RSMIDA/RSMPCA/RSMPIA), CSCRNA and ICHIPB records use each record field in its own role, whatever the order of fields, sections and surrounding records. "
     "Incomplete or unsuccessful records yield no model instead of an exception or a wrong model.",
     "every field value, field/section order, section layout up to the bound, each missing field",
     "tests build from a few stored records; swapped fields that are equal there and missing records are not sampled",
     [GD + "rpc_sensor_model_builder.py", GD + "rsm_sensor_model_builder.py", GD + "projective_sensor_model_builder.py", GD + "sensor_model_factory.py", GD + "xmltre_utils.py"],
     [("RPCSensorModelBuilder.build", GD + "rpc_sensor_model_builder.py"), ("RSMSensorModelBuilder.build", GD + "rsm_sensor_model_builder.py"),
      ("ProjectiveSensorModelBuilder.build", GD + "projective_sensor_model_builder.py"), ("SensorModelFactory.build ICHIPB handling", GD + "sensor_model_factory.py")],
     over=("inputs", "configurations"))
prop("C20", "The sensor model factory picks the most accurate usable model",
     "From the metadata available and the selected model types the factory returns the best precise model (SICD/SIDD over RSM over RPC) paired with the best approximate model (CSCRNA, ground control points, geotransform) when both exist, either alone when only one exists and None when neither does. "
     "Unusable metadata of one kind never prevents or changes the model built from the others, a chip record wraps the full-image model, and unselected types are never used.",
     "every combination of available, usable and unusable metadata and every selection",
     "tests use a few images, each with one combination of metadata",
     [GD + "sensor_model_factory.py", GD + "gdal_sensor_model_builder.py"],
     [("SensorModelFactory.build", GD + "sensor_model_factory.py"), ("GDALAffineSensorModelBuilder / GDALGCPSensorModelBuilder", GD + "gdal_sensor_model_builder.py")],
     over=("inputs", "configurations"))
prop("C21", "Pixel range adjustments are ordered and follow the histogram",
     "Dynamic range parameters computed from a histogram report the first and last occupied bucket as actual range and suggest percentile bounds widened by the weighting factors, never inverted and never outside the actual range, in pixel values of the given bucket range. "
     "Scale parameters map the source range (full type range, min/max or DRA) of each band onto the full range of the output type, for every pixel type including bands with a single value.",
     "every histogram up to the bucket bound, bucket value range, weighting, pixel type and band value range",
     "tests use one 1024 bucket histogram and a few images; skewed, constant and zero-ended histograms are not sampled",
     [GD + "dynamic_range_adjustment.py", GD + "gdal_utils.py"], [("DRAParameters.from_counts", GD + "dynamic_range_adjustment.py"), ("get_type_and_scales, get_minmax_for_type", GD + "gdal_utils.py")],
     over=("inputs", "configurations"))
prop("C22", "Data extension segments are found and re-encoded faithfully",
     "Segments are returned by name in file order, and their XML content is the embedded document in either GDAL representation, or None when there is none. "
     "The re-encoded header consists of the segment's own fields in their fixed positions and widths; a missing field is reported instead of shifting the rest.",
     "every field length up to its width, segment list and content representation up to the bound",
     "tests look at one stored image whose fields are mostly blank",
     [GD + "nitf_des_accessor.py"], [("NITFDESAccessor", GD + "nitf_des_accessor.py")], over=("inputs", "configurations"))
prop("C23", "Temporary GDAL configuration never leaks out of its scope",
     "Inside the with statement all options of a GDAL configuration environment, including AWS credentials, are set and others are unchanged. "
     "On exit, normal or by exception, every option has the value (or absence) it had on entry, also for nested or re-entered environments, and exceptions are not swallowed.",
     "every history of entering, leaving and changing two overlapping environments up to the bound",
     "tests enter one environment once; leaks need nesting, unset options or exceptions",
     [GD + "gdal_config.py"], [("GDALConfigEnv", GD + "gdal_config.py")], over=("histories",))
prop("C24", "Web mercator map tiles cover the map and contain their locations",
     "The bounds of a web mercator tile are its column's equal share of 360 degrees and its row's equal share of the projected height at that zoom level. "
     "The tile of a location exists at the zoom level and contains the location, edges of the map included, and the tile limits of an area contain exactly the tiles of its points.",
     "every tile, location and area at the zoom levels checked; both tile sizes",
     "tests look up one location in one tile set and never come near an edge",
     [IP + "map_tileset.py", IP + "map_tileset_wmq.py", IP + "map_tileset_factory.py"],
     [("WebMercatorQuadMapTileSet", IP + "map_tileset_wmq.py"), ("MapTileSet.get_tile_matrix_limits_for_area", IP + "map_tileset.py")])
prop("C25", "Chips of SAR images record where they lie in the full image",
     "After chipping, SICD metadata gives the chip's first row, first column and size relative to the full image, and SIDD metadata gives the output size and the positions of the chip's corner pixels in the original full image, in the document's own version. "
     "Each chip is relative to the image as provided, whatever was chipped before; scaled SICD chips are refused.",
     "every chip bounds, output size, original chip geometry and history of chips up to the bound",
     "tests chip one product once with round numbers",
     [IP + "sicd_updater.py", IP + "sidd_updater.py"], [("SICDUpdater", IP + "sicd_updater.py"), ("SIDDUpdater", IP + "sidd_updater.py")], over=("inputs", "histories"))
prop("C26", "Encoded tiles are cut, scaled and annotated as requested",
     "Every encoded tile is the requested window at the requested size, in the factory's format, pixel type, band scaling and compression, and the returned bytes are its file, which leaves nothing behind. "
     "NITF tiles name their own four corner positions and, for SAR images, carry the updated SICD/SIDD document under the original header. Nothing of one tile shows up in another.",
     "every window, size and history of tiles up to the bound; all formats, compressions and metadata layouts",
     "tests cut one tile per image and hardly look at its metadata; leaks between tiles need several",
     [IP + "gdal_tile_factory.py"], [("GDALTileFactory.create_encoded_tile and its option helpers", IP + "gdal_tile_factory.py")], over=("inputs", "histories", "configurations"))
prop("C27", "Map tiles show the ground positions they stand for",
     "An orthophoto tile has the requested size, its first row at the top (north) and its first column at the left (west) of the requested bounds, and every pixel is taken from the image position of its ground location on the elevation model. "
     "Reading overviews or padding image borders does not move pixels, positions outside the image are empty, and tiles that do not touch the image are refused with None.",
     "every affine image geometry, bounds and tile shape up to the bound, terrain included",
     "tests create one square tile of one image and do not look at the positions of its pixels",
     [IP + "gdal_tile_factory.py"], [("GDALTileFactory.create_orthophoto_tile", IP + "gdal_tile_factory.py"), ("GDALTileFactory._read_from_rlevel_as_array", IP + "gdal_tile_factory.py")])
prop("C28", "Map tiles display pixels stretched the way the range adjustment asks",
     "Converting raw pixels of a map tile to 8 bits maps each displayed band's minimum to black and maximum to white for MINMAX, the suggested dynamic range for DRA, linearly in between and clipped outside, band by band; without adjustment 8 bit pixels stay as they are. "
     "Complex SAR pixels are displayed by amplitude relative to the mean amplitude of the whole image, and brighter pixels never come out darker, whatever the pixel type.",
     "every pixel value of the type, every value range, band count and statistics availability",
     "tests normalise one image; integer overflow, wrapped whites and mixed-up bands need particular pixel values",
     [IP + "gdal_tile_factory.py", IP + "sar_complex_imageop.py"],
     [("GDALTileFactory._normalize_*", IP + "gdal_tile_factory.py"), ("quarter_power_image, image_pixels_to_complex", IP + "sar_complex_imageop.py")], over=("inputs", "configurations"))
prop("C29", "SAR pixels become complex values and grey levels as documented",
     "Pixels of every SAR pixel type convert to their complex values (I/Q as stored, amplitude/phase through the amplitude table and 256ths of a cycle) and power is I squared plus Q squared, without overflow. "
     "Histogram and quarter-power stretches give 8 bit grey levels proportional to the value relative to the scaled mean of the finite pixels, clipped at white; images without signal are black, and unknown pixel types are refused.",
     "every pixel value of the type, amplitude table, scale factor and precomputed mean",
     "tests render one image per operation; empty areas, non-finite pixels, tables and integer overflow are not sampled",
     [IP + "sar_complex_imageop.py"], [("image_pixels_to_complex, complex_to_power_value, histogram_stretch, quarter_power_image, linear_mapping", IP + "sar_complex_imageop.py")],
     over=("inputs", "configurations"))
prop("C30", "Image geometries of features are read, written and found faithfully",
     "Setting an image geometry or bounding box on a feature and reading it back gives the same shape; features are read from any of the supported properties in their documented order, and updating brings the current properties in line with the older ones. "
     "The spatial index returns exactly the features whose image (or world) geometry intersects a query, and as nearest the closest ones; features without geometry are never returned.",
     "every geometry type and coordinate, every combination of properties, every query up to the bound",
     "tests use a few stored features with one kind of property",
     [FE + "imaged_feature_property_accessor.py", FE + "feature_index.py"],
     [("ImagedFeaturePropertyAccessor", FE + "imaged_feature_property_accessor.py"), ("STRFeature2DSpatialIndex", FE + "feature_index.py")], over=("inputs", "configurations"))
prop("C31", "Geolocated features lie at the ground positions of their pixels",
     "Geolocating features replaces each feature's geometry with the world positions (degrees longitude and latitude, height) of the same image shape, computed with the sensor model on the given elevation model, and its bounding box with that of its image box. "
     "With a sensor model that is linear across the batch the result of a feature does not depend on the others or their order, features without image geometry stay as they are, and locating twice changes nothing.",
     "every affine sensor model, terrain slope, geometry type and position, batches up to the bound",
     "tests locate a few points with one model and do not vary the batch",
     [FE + "geolocation.py"], [("Geolocator.geolocate_features", FE + "geolocation.py"), ("LocationGridInterpolator", FE + "geolocation.py")], over=("inputs", "histories"))
prop("C32", "Loading an image returns it with the best sensor model its metadata allows",
     "Loading an image returns the opened dataset together with a sensor model that answers with the image's own metadata: geotransform and projection, ground control points, corner coordinates, RPC (through the chip record for chips) or SICD documents, precise and approximate models combined. "
     "Metadata that is absent, incomplete or unreadable never spoils the models of the rest, images without usable metadata have none, and images GDAL cannot open are reported as ValueError.",
     "every image size, field value and combination of metadata up to the bound, every pixel and ground point",
     "tests load a few stored images, each with one kind of metadata, and mostly check the type of the model",
     [GD + "gdal_utils.py", GD + "sensor_model_factory.py", GD + "gdal_sensor_model_builder.py", GD + "projective_sensor_model_builder.py"],
     [("load_gdal_dataset", GD + "gdal_utils.py"), ("SensorModelFactory.build and the builders", GD + "sensor_model_factory.py")], over=("inputs", "configurations"))
