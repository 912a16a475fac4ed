#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (a property is claimed when checks/<id>.py exists)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PH = "src/aws/osml/photogrammetry/"
GD = "src/aws/osml/gdal/"
IP = "src/aws/osml/image_processing/"
FE = "src/aws/osml/features/"
P = []


def prop(id, title, statement, text, why, files, mech, over=("inputs",), note="", observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files, mech=mech, note=note, observe=observe))


prop("C01", "Geodetic coordinates print correct degrees, minutes and seconds",
     "The text forms of a geodetic coordinate (default format, ddmmssX string and % directives) show the magnitude of latitude and longitude to the whole second, with minutes and seconds in 00..59, the right hemisphere letter and fixed-width fields. "
     "A format string is rendered item by item: each directive shows its own field, literals pass through, %% is a percent sign and unknown directives vanish.",
     "every longitude in [-pi, 2pi], latitude in [-pi/2, pi/2], elevation; every format string up to the bound",
     "tests format a handful of coordinates; carries (59.9999 seconds), signs near zero and directive combinations are not sampled",
     [PH + "coordinates.py"], [("GeodeticWorldCoordinate.to_dms_string / __format__", PH + "coordinates.py")])
prop("C02", "Coordinate objects hold and convert positions without mixing up axes",
     "Image and world coordinates return exactly the components they were built from, under every accessor name, and assigning one component changes only that component. "
     "Converting a geodetic position (radians, metres) to geocentric metres and back returns the same position and never modifies its input.",
     "every coordinate value, every accessor and setter, both conversion directions",
     "tests use a few fixed coordinates, so swapped axes or unit slips that cancel on those values go unnoticed",
     [PH + "coordinates.py"], [("ImageCoordinate / WorldCoordinate / GeodeticWorldCoordinate accessors", PH + "coordinates.py"), ("geodetic_to_geocentric / geocentric_to_geodetic", PH + "coordinates.py")])
prop("C03", "Elevation tile names identify the one-degree cell containing the point",
     "The SRTM and generic DEM tile sets name the tile of the one-degree cell whose lower-left corner is at or below/left of the coordinate, in all four hemispheres, laid out as configured. "
     "No tile is named outside the configured coverage and one is always named inside it.",
     "every longitude/latitude, including negative ones and values next to whole degrees; every integer coverage limit",
     "tests probe a few coordinates; floor versus truncation, hemisphere letters at negative coordinates and float carries need all values",
     [PH + "srtm_dem_tile_set.py", PH + "generic_dem_tile_set.py"], [("find_tile_id", PH + "srtm_dem_tile_set.py"), ("find_tile_id", PH + "generic_dem_tile_set.py")])
prop("C04", "Elevation lookups interpolate the right tile and never invent data",
     "Looking up the elevation of a point sets it to the bilinear interpolation of the surrounding posts of that point's tile (clamped at tile borders), located with the tile's own geometry, and leaves longitude and latitude untouched. "
     "Where no tile, no raster or no geometry exists the elevation is left unchanged and the region has no summary. "
     "The answer never depends on earlier lookups or the cache size, and a constant elevation model answers its constant everywhere.",
     "every query point, post values, tile geometry, lookup history up to the bound and cache size",
     "tests look up a few points in one tile; row/column swaps, cache confusion and missing-tile behaviour depend on histories and positions not sampled",
     [PH + "digital_elevation_model.py", PH + "elevation_model.py", GD + "gdal_dem_tile_factory.py"],
     [("DigitalElevationModel.set_elevation / get_interpolation_grid cache", PH + "digital_elevation_model.py"), ("GDALDigitalElevationModelTileFactory.get_tile", GD + "gdal_dem_tile_factory.py")],
     over=("inputs", "histories", "configurations"))
prop("C05", "RPC world_to_image evaluates the published RPC equations",
     "The pixel of a world point under an RPC model is the ratio of the two 20-term cubic polynomials in the published (RPC00B) term order, evaluated at normalised longitude, latitude and height in degrees/metres and de-normalised with the image offset and scale, x from the sample and y from the line polynomial. "
     "The input coordinate is not modified.",
     "every coefficient, offset, scale and world point with non-vanishing denominators",
     "tests check two stored images; a swapped cross-term or offset can stay within their tolerance",
     [PH + "rpc_sensor_model.py"], [("RPCPolynomial.evaluate, RPCSensorModel.world_to_image", PH + "rpc_sensor_model.py")])
prop("C06", "RPC/RSM image_to_world searches for the pixel on the terrain",
     "For RPC and RSM polynomial models, mapping a pixel to the world minimises the distance between the pixel and the projection of the candidate point placed at the elevation model's height (or the model's reference height where there is none), and returns the minimiser found with that height. "
     "The search starts at the caller's initial guess and search distance when given, otherwise at the model's own ground reference, with sub-pixel tolerances and within the ground domain; the caller's coordinate and options are not changed.",
     "every target pixel, hint combination, elevation source and any point the optimiser may probe or return",
     "tests run the search on single images, where a wrong start, height or objective still ends near the expected point",
     [PH + "rpc_sensor_model.py", PH + "replacement_sensor_model.py", PH + "math_utils.py"],
     [("image_to_world distance function and minimize call", PH + "rpc_sensor_model.py"), ("image_to_world", PH + "replacement_sensor_model.py")],
     over=("inputs", "configurations"))
prop("C07", "RSM polynomials and world_to_image follow the RSM equations",
     "An RSM polynomial's value is the sum of coefficient times x^i y^j z^k with the x power varying fastest, then y, then z; the low order polynomial uses its ten published terms, and a wrong number of coefficients is rejected. "
     "The RSM pixel of a world point is the de-normalised ratio of its row and column polynomials at the normalised ground-domain coordinate.",
     "every coefficient, offset, scale, coordinate; maximum powers up to the bound",
     "tests evaluate a few coefficient sets; ordering mistakes show only with unequal powers",
     [PH + "replacement_sensor_model.py"], [("RSMPolynomial, RSMLowOrderPolynomial, RSMPolynomialSensorModel", PH + "replacement_sensor_model.py")])
prop("C08", "Sectioned RSM models use the section that owns the pixel",
     "A sectioned RSM model delegates to exactly one section model: the one whose row and column range contains the pixel (for world points: the pixel approximated by the low order polynomials), measured from the image domain's minimum row and column. "
     "Positions outside the image use the nearest section, and coordinates, elevation model and options are passed on unchanged.",
     "every pixel and world point, section size, domain offset, grid shape up to the bound",
     "tests use one image with few sections; row/column swaps and boundary clamping need unequal grids and outside points",
     [PH + "replacement_sensor_model.py"], [("RSMSectionedPolynomialSensorModel", PH + "replacement_sensor_model.py")])
prop("C09", "RSM ground domain conversions are mutually inverse and correctly oriented",
     "Geodetic positions convert to the RSM ground domain as specified (unchanged, longitude wrapped into 0..2pi, or projected on the rectangular axes about the origin) and back to the same position. "
     "The bounding box spans all eight vertices, the reference height is the ground reference point's or else the mean vertex height, and incomplete domain descriptions are rejected.",
     "every position, vertex set, origin; a set of rotations",
     "tests convert a few points of one rectangular domain; transposed axes vanish with symmetric rotations",
     [PH + "replacement_sensor_model.py"], [("RSMGroundDomain", PH + "replacement_sensor_model.py")])
prop("C10", "Projective sensor model reproduces its control points and inverts itself",
     "A projective sensor model maps every world control point to its image control point and back, for any control points in general position, and its two directions are inverse to each other. "
     "Elevations come from the elevation model when given, and inputs are not modified.",
     "every correspondence in general position and every query point (affine and genuinely projective)",
     "tests use one nearly affine quadrilateral with loose tolerances",
     [PH + "projective_sensor_model.py"], [("ProjectiveSensorModel least squares fits", PH + "projective_sensor_model.py")])
prop("C11", "Chipped-image models compose the chip mapping with the full image model",
     "A model for a chip answers every query as the full image model would at the corresponding full image pixel, for any chip offset, scale, mirror or quarter turn given by its corner correspondences. "
     "Elevation model, options and world coordinates are handed to the full image model unchanged.",
     "every chip geometry, chip pixel and world point",
     "tests use one chip; swapped chip/full roles or lost options are invisible there",
     [PH + "chipped_image_sensor_model.py"], [("ChippedImageSensorModel", PH + "chipped_image_sensor_model.py")])
prop("C12", "Geotransform sensor model is exact, invertible and CRS-correct",
     "The affine model maps a pixel to the longitude/latitude of its geotransform (converted from the image CRS when one is given) in radians, with the elevation model's height or zero, and maps it back to the same pixel. "
     "Geotransforms that cannot be inverted are rejected with a ValueError, and inputs are not modified.",
     "every invertible geotransform incl. rotation and shear, every pixel, any invertible CRS conversion",
     "tests use axis-aligned transforms; rotation terms and axis order of the CRS are not sampled",
     [PH + "gdal_sensor_model.py"], [("GDALAffineSensorModel", PH + "gdal_sensor_model.py")])
prop("C13", "Composite models answer precisely, seeded by the approximate model",
     "A composite sensor model returns exactly the precise model's answers; before an image_to_world it asks the approximate model for the same pixel and passes its longitude/latitude as initial guess with a positive search distance. "
     "The caller's options dictionary is never changed and other options reach the precise model.",
     "every pixel, world point, option dictionary and call sequence up to the bound",
     "tests mock single calls; leaks between calls and mutated options need histories",
     [PH + "composite_sensor_model.py"], [("CompositeSensorModel", PH + "composite_sensor_model.py")], over=("inputs", "histories"))
prop("C14", "SAR grid, image-plane and polynomial conversions are exact inverses",
     "For SAR imagery, pixel rows/columns, SCP-centred metre offsets and image-plane points convert into each other with the metadata's sample spacings and row/column axes, also for non-perpendicular axes, and back without loss. "
     "Metadata polynomials evaluate coefficient [i][j] with x^i y^j, and velocities are the exact time derivatives of position polynomials.",
     "every pixel, spacing, SCP, skew angle and polynomial coefficient up to the degree bound",
     "tests check the scene centre of three products, where offsets vanish and axes are perpendicular",
     [PH + "sicd_sensor_model.py"], [("SARImageCoordConverter, Polynomial2D, PolynomialXYZ", PH + "sicd_sensor_model.py")])


def manifest():
    ids = [p["id"] for p in P]
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(V, "checks", p["id"] + ".py")):
            checks.append({"property": p["id"], "quick_cmd": f"/opt/venv/bin/python run.py {p['id']} --tier quick",
                           "thorough_cmd": f"/opt/venv/bin/python run.py {p['id']} --tier thorough",
                           "technique": "symbolic execution of the real Python code, claims decided by SMT (z3, cvc5) over all values within bounds",
                           "level": "model_checking",
                           "level_note": "Every feasible path of the harness is explored and every claim on it is discharged by the solver for all input values within the "
                                         "stated bounds (real arithmetic; rounding modelled where stated). Trusted: the symbolic number/array layer (validated per path by replaying "
                                         "a solver model on the unpatched code), library stand-ins listed in the evidence, z3/cvc5. " + p["note"]})
        else:
            na.append({"property": p["id"], "reason": "no check yet"})
    na += NA
    return {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/smoke.py", "checks": checks, "not_applicable": na,
            "notes": "Engine: symx/ (symbolic execution by operator overloading on the imported modules of /repo/src). One driver: run.py."}


NA = []


def na(id, title, statement, text, why, files, mech, reason, over=("inputs",)):
    prop(id, title, statement, text, why, files, mech, over)
    P[-1]["na"] = reason
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(V, "tools", "props2.py")).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(d) + "\n")
nas = {x["property"] for x in NA}
P[:] = [p for p in P if p["id"] not in nas]
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(manifest(), f, indent=1)
