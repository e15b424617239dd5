HYP = 'random structured generation (Hypothesis), shrunk counterexamples; bounded sizes; no proof of absence. '

prop('C01', 'HDF containers hold exactly what was stored, across close and reopen',
     'After any sequence of store, drop, list, close and reopen calls, a container returns every string, '
     'dictionary, list, array (with its metadata) and data frame equal to the value last stored under that name '
     '(and group path; data frames with their text, digits, column types, row labels and row order), and its listings name exactly the objects currently held. '
     'Reading or dropping something that is not held raises LookupError, storing over a held name is refused, '
     'and a call that fails leaves what the container holds unchanged.',
     ['histories', 'inputs'],
     'every sequence of set/get/drop/list/close/load calls on HDFContainer and HDFContainerBase, every name, group path and '
     'JSON-serialisable / numeric value (strings without NUL)',
     'the tests store one or two fixed objects per kind, never mix kinds, never drop inside a group, never check a failing call',
     ['impactutils/io/container.py', 'impactutils/io/smcontainers.py'],
     [('one HDF dataset per object below a per-kind group', 'HDFContainer.*, HDFContainerBase.*'),
      ('group walk for listings', 'HDFContainerBase.getDictionaries/getArrays/getStrings')],
     HYP + 'Trusts h5py and the JSON module.', 'stateful model-based testing against a dict model, with reopen and injected failing calls')

prop('C02', 'ShakeMap container sections are independent and never half-replaced',
     'For every history of calls, each section of a ShakeMap container (configuration, rupture, stations, version history, '
     'metadata) reads back as the value of the last successful set of that section, also after close and reopen, and '
     'setting one section never changes another. A set that is rejected or fails keeps the previous value, and a section '
     'never set signals its absence (AttributeError, LookupError for metadata, empty dictionary for version history).',
     ['histories', 'inputs'],
     'every sequence of section setters/getters with valid and invalid values, interleaved with close/load',
     'one test per section sets once and reads once; overwriting, failing sets and reopen are not explored',
     ['impactutils/io/smcontainers.py'],
     [('drop-then-set of a reserved dictionary', 'ShakeMapContainerBase.set*/get*, ShakeMapOutputContainer.setMetadata')],
     HYP, 'stateful model-based testing with failing calls and reopen')

prop('C03', 'ShakeMap output holds IMT layers losslessly and never mixes points and grids',
     'Every IMT stored in an output container reads back with the same mean, standard deviation, coordinates, ids and '
     'metadata for its component, and the IMT and component listings name exactly the pairs currently stored, after any '
     'history of stores, drops and reopens. A file is either points or grid from the first successful store on: any call '
     'of the other kind raises TypeError, and a refused or invalid call stores nothing and decides nothing.',
     ['histories', 'inputs'],
     'every sequence of setIMTGrids/setIMTArrays/getIMT*/dropIMT/getIMTs/getComponents/close/load, IMT and component names, array shapes',
     'the tests store two IMTs in one order; no drop/re-store, refused call then valid call, or reopen in between',
     ['impactutils/io/smcontainers.py'],
     [('file_data_type marker', 'ShakeMapOutputContainer.setDataType/getDataType'),
      ('imts/<component>/<imt> groups', 'setIMTGrids, setIMTArrays, dropIMT, getIMTs, getComponents')],
     HYP, 'stateful model-based testing against a dict model')

prop('C04', 'Geographic and earth-centred coordinates convert losslessly',
     'Converting any latitude, longitude and depth to earth-centred coordinates agrees with the WGS84 geodetic definition, '
     'and converting back recovers the position, for scalars and arrays of any shape and any longitude convention. '
     'Vector objects built from geographic points return that same point.',
     ['inputs'], 'all latitudes, longitudes, depths/elevations the rupture code uses (-100..1000 km), scalar and array shapes',
     'the tests convert three fixed points', ['impactutils/vectorutils/ecef.py', 'impactutils/vectorutils/vector.py', 'impactutils/vectorutils/point.py'],
     [('latlon2ecef / ecef2latlon', 'vectorutils/ecef.py'), ('Vector.fromPoint / toPoint', 'vectorutils/vector.py')],
     HYP + 'Oracle: own WGS84 formula and pyproj.', 'round-trip and differential testing against an independent WGS84 model')

prop('C05', 'Vector objects obey Euclidean vector algebra',
     'For all vectors, addition, subtraction, scaling (from either side), dot and cross product, magnitude, distance and '
     'normalisation give the Euclidean result as new objects and leave their operands unchanged; equality holds exactly '
     'when all three components are equal. Mixing a vector with anything that is not a vector (or a number, for scaling) '
     'raises TypeError.',
     ['inputs'], 'all finite component values of earthquake-scale magnitude (0, tiny, up to 1e7 m), all scalars, all non-vector operands',
     'the tests use one or two fixed vectors', ['impactutils/vectorutils/vector.py'],
     [('component-wise float arithmetic', 'Vector.__add__ .. Vector.mag')],
     HYP, 'algebraic laws and reference arithmetic over generated vectors')

prop('C06', 'Great-circle distance, azimuth and compass names are geometrically right',
     'For any two points the geodetic distance is the great-circle distance on a 6371 km sphere (symmetric, zero only for '
     'coincident points, combined with depth by Pythagoras in 3-D), and the azimuth is the clockwise angle from north '
     'toward the second point, for scalars and arrays, with longitudes in any convention. '
     'The compass name is always the nearest direction of the requested resolution in the requested short or long form; '
     'unknown resolutions and formats raise KeyError.',
     ['inputs', 'configurations'], 'all coordinate pairs (poles, antimeridian, antipodes), all angles in [-360, 360], 3 resolutions x 2 formats',
     'one test with two cities', ['impactutils/extern/openquake/geodetic.py', 'impactutils/mapping/compass.py', 'impactutils/vectorutils/point.py'],
     [('haversine and true-course formulas', 'extern/openquake/geodetic.py'), ('nearest sector lookup', 'mapping/compass.py')],
     HYP + 'Oracle: independent 3-D unit-vector geometry.', 'differential testing against 3-D vector geometry')

prop('C07', 'Ruptures survive being written as GeoJSON and read back',
     'Writing any point, quadrilateral or edge rupture to a GeoJSON file and reading it back '
     'yields a rupture of the same kind with the same outline, reference and origin metadata, whose own GeoJSON is identical. '
     'A finite rupture is read as quadrilateral exactly when every quadrilateral of it is planar with horizontal top and bottom '
     'edges (within 5 percent); reading never modifies the given dictionary, and references in any language come back whatever the locale. A document that is not a collection of exactly one such feature with a reference, '
     'or whose polygons are unclosed, flat, upside down or have an even number of points, is refused.',
     ['inputs'], 'every finite rupture of 1-3 groups of 1-3 segments (planar and warped), every point rupture, origins of the years 1-9999, references in any language, files in UTF-8 (with or without byte order mark) or Latin-1',
     'the tests read a few fixed files and compare selected numbers', ['impactutils/rupture/factory.py', 'impactutils/rupture/base.py',
      'impactutils/rupture/quad_rupture.py', 'impactutils/rupture/edge_rupture.py', 'impactutils/rupture/point_rupture.py'],
     [('GeoJSON serialisation', 'Rupture.writeGeoJson'), ('class choice', 'factory.rupture_from_dict, is_quadrupture_class, utils.is_quad')],
     HYP, 'round-trip testing over generated ruptures')

prop('C08', 'Rupture text files yield exactly the polygons written in them',
     'A rupture text file in either column order, with whitespace or comma separators, comments and blank lines, reads as exactly its '
     'polygons in order with the stated reference (in any language, of several lines, with pound signs), whatever vertex a polygon starts from; a rupture written as text reads back unchanged. '
     'Files whose polygons are unclosed, flat or have an odd number of vertices, or whose lines are malformed, are refused with an exception.',
     ['inputs'], 'all files of 1-3 polygons with 2-4 vertex pairs, all separators, comment/blank placements, start vertices, number notations, line ends, UTF-8 and Latin-1, and single defects',
     'two fixed files are read', ['impactutils/rupture/factory.py', 'impactutils/rupture/quad_rupture.py'],
     [('text parser', 'factory.text_to_json, get_rupture'), ('text writer', 'QuadRupture.writeTextFile')],
     HYP, 'grammar-based generation with parse-back oracle and mutation to invalid files')

prop('C09', 'Rupture constructors build the surface they were asked for',
     'Building a quadrilateral rupture from a trace with widths and dips, from a known point with strike, dip and size, or from explicit corners '
     'yields quadrilaterals with exactly the requested top edge, length, width, strike, dip, depth and grouping, and the known '
     'point at the stated place on the plane. Edge arrays yield those edges unchanged. '
     'Arguments of inconsistent length are refused.',
     ['inputs'], 'all strikes, dips 10-90, lengths and widths up to 40 km, up to four segments, groupings, latitudes up to 60, date line',
     'fixed traces with golden numbers', ['impactutils/rupture/quad_rupture.py', 'impactutils/rupture/edge_rupture.py'],
     [('projection and down-dip vector', 'QuadRupture.fromTrace, fromOrientation, fromVertices; EdgeRupture.fromArrays')],
     HYP + 'Oracle: geodesic (pyproj) and ECEF geometry.', 'generated constructor arguments checked against independent geodesic geometry')

prop('C10', 'Rrup and Rjb to quadrilateral ruptures are true shortest distances',
     'For every quadrilateral rupture and site, Rrup is the shortest distance to the rupture surface and Rjb the shortest horizontal distance '
     'to its surface projection (zero above it), for any shape of the site array, and neither depends on the order of groups, a rotation in longitude or the date line. '
     'Rjb never exceeds Rrup of a surface site, a multi-group distance is the minimum over its groups, and the depth at a surface point is that of the plane below it.',
     ['inputs'], 'ruptures of 1-3 groups of 1-3 planar segments (also exactly vertical), sites up to 250 km away at depths -3..30 km',
     'golden distances of a few fixed ruptures', ['impactutils/rupture/quad_rupture.py', 'impactutils/rupture/utils.py'],
     [('point-to-quad distance', 'utils.calc_rupture_distance, QuadRupture.computeRrup/computeRjb'), ('plane depth', 'QuadRupture.getDepthAtPoint')],
     HYP + 'Tolerance 0.1-1 % / some metres for the curvature approximation.', 'differential testing against direct geometric minimisation; metamorphic relations')

prop('C11', 'Edge-rupture distances match the surface spanned by the edges',
     'For every edge rupture and site, Rrup and Rjb are the shortest distances to the surface between the top and bottom edges (or its projection), '
     'accurate to the mesh spacing, and agree with the quadrilateral rupture of the same shape. They are the minimum over groups, do not change when rupture '
     'and sites rotate in longitude, and a requested mesh spacing is honoured without altering the rupture.',
     ['inputs', 'configurations'], 'ruptures of 1-3 groups of 1-3 warped patches with sloping edges, mesh 0.4-3 km, sites in and around',
     'golden distances of one or two fixed ruptures', ['impactutils/rupture/edge_rupture.py', 'impactutils/rupture/distance.py'],
     [('mesh of points between the edges', 'EdgeRupture.computeRrup/computeRjb, utils.get_quad_mesh')],
     HYP, 'differential testing against dense sampling and QuadRupture; metamorphic relations')

prop('C12', 'GC2 coordinates follow the generalized coordinate system definition',
     'For every finite rupture and site the strike-parallel and strike-normal coordinates (U, T, Rx, Ry, Ry0) follow the generalized coordinate definition '
     'of the rupture traces: along one straight trace Rx is the signed perpendicular distance (positive on the hanging wall of a quadrilateral rupture) and Ry0 the distance off its ends (zero alongside). '
     'Cutting a straight trace into groups in any order, or rotating everything in longitude, changes nothing, and sites on the trace have finite values with Rx zero.',
     ['inputs'], 'ruptures of 1-3 traces of 1-3 segments with any relative strike, groups listed against their strike, sites within 120 km',
     'golden values for fixed ruptures', ['impactutils/rupture/gc2.py'],
     [('GC2 weights and origin', 'gc2._computeGC2, __calc_u_i, __calc_t_i')],
     HYP + 'Own implementation of Spudich and Chiou (2015); near-ties of discrete choices are skipped.', 'differential testing against an independent GC2 implementation; metamorphic relations')

prop('C13', 'Distance requests return every requested measure, each the right one',
     'For every rupture and site grid, a distance request returns exactly the requested measures in the shape of the sites, each equal to that measure computed directly: '
     'epicentral and hypocentral distances are great-circle distances to the origin (with depth), and point-rupture Rrup/Rjb are the published magnitude, region and mechanism dependent adjustment, never beyond the hypocentral or epicentral distance. '
     'Unknown measures, bad types and inconsistent site shapes are refused, and requests leave the rupture unchanged.',
     ['inputs', 'configurations'], 'all origins, mechanisms, tectonic regions, subsets of the ten measures, 1-D and 2-D site arrays, ground-motion model sets',
     'a handful of fixed origins and grids', ['impactutils/rupture/point_rupture.py', 'impactutils/rupture/distance.py', 'impactutils/rupture/base.py'],
     [('get_distance dispatch', 'rupture/distance.py'), ('ps2ff adjustment', 'PointRupture.computeRrup/computeRjb')],
     HYP + 'Trusts ps2ff tables.', 'differential testing of the interface against direct computation and sphere geometry')

prop('C14', 'Rupture dimensions, angles and vectors match the geometry of the corners',
     'Length, width, area, strike, dip, depth to top, outline, individual quadrilaterals and local vectors of every finite rupture equal the values '
     'computed from its corner coordinates, and a single quadrilateral\'s mesh lies on its plane. '
     'The slip of a quadrilateral is along its top edge for pure strike slip. '
     'Rake angles within 30 degrees of a pure mechanism (or its reverse) classify as that mechanism, all others as ALL.',
     ['inputs'], '1-3 groups of 1-3 parallelogram or warped patches (groups listed with the dip to the right), dips 10-90, any location; all rakes in [-180, 180]',
     'golden values of fixed ruptures', ['impactutils/rupture/quad_rupture.py', 'impactutils/rupture/edge_rupture.py', 'impactutils/rupture/utils.py'],
     [('scalar getters', 'QuadRupture.get*, EdgeRupture.get*'), ('vector helpers', 'rupture/utils.py')],
     HYP, 'differential testing against ECEF vector geometry of the generated corners')

prop('C15', 'Event origins are read, validated and written without loss',
     'Every complete event written to an event file reads back with the same values: text in any language exactly, position, depth, magnitude and time to the precision of the file (0.0001 degrees, 0.1 km, 0.1 units, one second). '
     'Files in every accepted time notation are read to the last digit given (fractions of a second to the microsecond), '
     'and values of a source file (numbers as numbers) override it. '
     'Events with missing or mistyped keys, coordinates out of range or not numbers or an unknown mechanism are refused, the mechanism may also be called type, the event given is not changed, and a refused write returns a message and writes nothing. '
     'Setting a mechanism wraps the rake to [-180, 180], fills in the defaults of that mechanism, and refuses unknown mechanisms and dips outside [0, 90] without changing the origin.',
     ['inputs'], 'all event dictionaries (years 1-9999, unicode text), XML variants, source files with comments and blank lines, mechanisms with rake and dip',
     'one event file per format', ['impactutils/rupture/origin.py', 'impactutils/rupture/utils.py'],
     [('XML reader/writer', 'origin.read_event_file, write_event_file'), ('validation', 'Origin.__init__, setMechanism'), ('source files', 'origin.read_source')],
     HYP, 'round-trip, grammar-based and negative testing of generated events')

prop('C16', 'Historic times format like calendar arithmetic for any year',
     'For every date of the years 1 to 9999, formatting a historic time gives the text computed by proleptic Gregorian calendar arithmetic (weekdays, week numbers, day of year, offsets, literal percent signs), '
     'and the text parses back to the same fields. '
     'Before 1900, formats with the locale-dependent %c and %x, or with flags, field widths or modifiers that would show the year of another century, are refused wherever they occur.',
     ['inputs'], 'all datetimes of years 1-9999, formats built from all supported directives, literals and percent escapes',
     'the only test of this module is not collected', ['impactutils/time/ancient_time.py'],
     [('substitution of the year in a 28-year equivalent', 'HistoricTime.strftime')],
     HYP, 'differential testing against an independent formatter, round-trip')

prop('C17', 'Local times are found from coordinates, and elapsed times read correctly',
     'Local time at any place and moment equals the UTC time plus the offset its time-zone source states there (offset raster cell, time-zone polygon with its summer-time rules, or nautical zone outside them), '
     'also across the antimeridian, close to summer-time switches and outside all zones; raster conversions honour the rounding method. '
     'The elapsed-time text between two moments states the two largest units (weeks to seconds) with correct plurals.',
     ['inputs', 'configurations'], 'all coordinates and times, generated offset rasters and zone polygons, summer-time transitions, all rounding methods',
     'one fixed place per source', ['impactutils/time/timeutils.py'],
     [('raster offsets', 'TimeConversion'), ('polygon zones', 'LocalTime'), ('natural earth zones', 'LocalTimeNE'), ('elapsed text', 'ElapsedTime')],
     HYP + 'Generated rasters and shapefiles replace the downloaded data sets; trusts zoneinfo/pytz.', 'differential testing against own point-in-polygon, zone and rounding references')

prop('C18', 'Numbers shown to people are rounded and abbreviated faithfully',
     'Every rounded or abbreviated number stays within half a rounding step of the value it stands for, with the unit suffix and separators that belong to it: '
     'digit grouping, rounding to a step (also fractional steps), population and dollar abbreviations, significant digits and Roman numerals. '
     'Numbers that have no such form are refused.',
     ['inputs'], 'all integers and decimals up to 10^15, all steps, modes and separators; Roman numerals exhaustively sampled in 1-3999',
     'a handful of values per function', ['impactutils/textformat/text.py'],
     [('formatters', 'text.dec_to_roman, commify, round_to_nearest, floor/ceil_to_nearest, pop_round, dollar_round, set_num_precision')],
     HYP + 'Oracle in exact rational arithmetic.', 'property-based testing with exact-arithmetic oracles')

prop('C19', 'Colour palettes give each data value its interpolated colour',
     'Every data value gets the colour linearly interpolated between the colours at the ends of its range (within one colour step of the stated resolution, values beyond the limits get the end colours), '
     'in every output format, on linear and logarithmic scales, for palettes built from lists, files, presets or other colour maps; missing data get the stated missing colour. '
     'Inconsistent sequence lengths, unknown presets and formats are refused, and construction leaves its inputs unchanged.',
     ['inputs'], 'palettes of 1-7 ranges with continuous or abrupt colours, any resolution, NaN, values on boundaries and out of range, 2-D arrays',
     'values at one preset and one file', ['impactutils/colors/cpalette.py'],
     [('segment table and table size', 'ColorPalette.__init__'), ('value scaling', 'ColorPalette.getDataColor')],
     HYP + 'Trusts Matplotlib color tables.', 'property-based testing against an interval-valued interpolation reference')

prop('C20', 'City searches select exactly the matching cities, unchanged',
     'Searching cities by box (edges included, also across the 180 meridian), great-circle radius, population, or name pattern selects exactly the matching rows with all their columns, searches combine, and never change the cities searched. '
     'Thinning by grid keeps the most populous cities of each cell up to the limit, losing or doubling none at cell edges. '
     'Cities sort by any columns, and survive saving and reading; GeoNames tables load every line with an ASCII name.',
     ['inputs', 'histories'], 'tables of 0-20 cities with edge coordinates, duplicate indices, optional columns, names that look like missing values; sequences of searches',
     'the tests need a data file that is not present, and check sizes only', ['impactutils/mapping/city.py', 'impactutils/mapping/mapcity.py'],
     [('filters', 'Cities.limitBy*'), ('storage', 'Cities.save/fromCSV/fromGeoNames')],
     HYP, 'differential testing against brute-force selection; sequences of searches; round-trip')

prop('C21', 'Scale bars measure map distance and map labels never collide',
     'A scale bar drawn on any map is as long in map units as its label says (at the central latitude of geographic maps), uses the listed length nearest a quarter of the map or the requested one, has its numbers and ticks at the right distances and its frame at the requested padding; bad arguments are refused before anything is drawn. '
     'City labels drawn on a map lie inside it, at their city, without overlapping, and a city is left out only beyond the cell limit, off the map, or in collision with a larger city.',
     ['inputs', 'configurations'], 'six kinds of projection, extents 0.2-15 degrees (also across 180), figure shapes, units, fonts, paddings, clusters of up to 40 cities',
     'drawing is only exercised, its geometry is not checked', ['impactutils/mapping/scalebar.py', 'impactutils/mapping/mercatormap.py'],
     [('bar layout', 'scalebar.draw_scale'), ('label boxes', 'MercatorMap.limitByMapCollision, getCityEdges, renderRow')],
     HYP + 'Measures the artists drawn by Matplotlib; projected maps are judged in projection metres.', 'property-based testing of the drawn geometry (invariants over rendered artists)')

prop('C22', 'Copying puts complete files in place and cancels, in any history',
     'Sending by copy leaves in the remote directory each single file under its own name and each file of the local directory under its relative path, byte for byte, removes a previous cancel file, and touches nothing else; the reported count is the number of files, and cancel writes the cancel file with the given content. '
     'This holds for any file names, for repeated sends and for files changed, added or removed in between. '
     'If a copy fails (missing or unreadable file, full or read-only disk) send raises, and each remote file is a complete old or new version. Senders that work in the same remote directory at the same time do not disturb each other: each succeeds, and a file both send is the complete file of one of them.',
     ['histories', 'faults', 'inputs', 'schedules'], 'histories of up to 8 operations over trees of up to 5 files with awkward names; write failures after n bytes, unreadable or missing files, read-only targets; a second sender at any change of the first',
     'the test sends one fixed directory once, without failures', ['impactutils/transfer/copysender.py', 'impactutils/transfer/sender.py'],
     [('copy to a temporary name, then rename', 'CopySender._copy_file_with_path'), ('cancel file', 'CopySender.send, cancel')],
     HYP + 'Runs as an unprivileged user in a scratch directory; power loss is not modelled.', 'stateful model-based testing with injected file system faults')

prop('C23', 'PDL gets exactly the arguments it was told, whatever they contain',
     'The command PDLSender runs hands PDL one argument for each required, optional and product property and for the file or directory, with exactly the given value (numbers and times in their documented format, the event time in UTC) whatever characters it contains, and the status UPDATE for send and DELETE for cancel. '
     'A failing command raises PDLError with its output, a successful one returns the number of files and its output, and more than one file is refused before PDL is run. '
     'Commands run by get_command_output return their full output and error output and whether they succeeded.',
     ['inputs', 'faults'], 'any property values (spaces, quotes, shell syntax, placeholders), file names, outputs up to megabytes, exit statuses',
     'the tests need a real PDL; only one plain command is ever run', ['impactutils/transfer/pdlsender.py', 'impactutils/io/cmd.py'],
     [('template of the command line', 'PDLSender._build_command'), ('process and its pipes', 'get_command_output')],
     HYP + 'The program run is a stand-in that records its arguments.', 'property-based testing with a recording stand-in for the program run')

prop('C24', 'Mail reaches every recipient once, complete, and privately',
     'Sending or cancelling by mail delivers the message exactly once to each recipient that any of the servers accepts, trying the servers in turn, in messages of at most max_bcc recipients (plus the primary recipient), and raises if any recipient could not be reached. '
     'Batch messages reveal no recipient in their header. Subject, text, and every attached or zipped file arrive unchanged.',
     ['inputs', 'faults', 'histories'], 'up to 12 recipients, every batch size, up to 4 servers that are dead, refuse at any step or for some recipients, or drop the connection',
     'no test sends mail; they need a real server', ['impactutils/transfer/emailsender.py'],
     [('batches', '_split_addresses'), ('server by server delivery', '_send_email'), ('message building', '_get_encoded_message, EmailSender.send')],
     HYP + 'Real SMTP over the loopback against scripted servers; servers that accept a message and lose it are out of reach.', 'property-based testing against scripted loopback SMTP servers')

prop('C25', 'FTP puts complete files in place by rename, or raises',
     'Sending by FTP stores every single file and every file of the local directory below the remote directory (absolute or relative, created as needed), byte for byte, uploading to a temporary name and renaming, so that a final name never shows an incomplete file; cancel places the cancel file. '
     'If the server refuses or drops anything on the way, the sender raises. Senders that work in the same remote directory at the same time do not disturb each other: each succeeds, and a file both send is the complete file of one of them.',
     ['histories', 'faults', 'inputs', 'schedules'], 'histories of up to 6 operations; one fault of the server at any step; a second sender at any command of the first',
     'no test talks to a server', ['impactutils/transfer/ftpsender.py', 'impactutils/transfer/sender.py'],
     [('temporary name then rename', 'FTPSender.__sendfile'), ('remote directories', 'FTPSender._create_remote_directory, _copy_file_with_path')],
     HYP + 'Real FTP over the loopback against an in-memory server.', 'stateful model-based testing against an in-memory FTP server with faults')

prop('C26', 'SSH puts complete files in place, whatever their names, or raises',
     'Sending by SSH stores every single file and every file of the local directory below the remote directory, byte for byte, whatever characters names and contents have, and leaves nothing else behind (a remote file in the place of a folder that receives files gives way); all of it is in place when send returns. '
     'Cancel writes the cancel file with exactly the given content and a line end. '
     'If login or any remote command fails, or the connection is lost, the sender raises, and each remote file is a complete old or new version. Senders that work in the same remote directory at the same time do not disturb each other: each succeeds, and a file both send is the complete file of one of them.',
     ['histories', 'faults', 'inputs', 'schedules'], 'histories of up to 4 operations; failure of the k-th remote command, lost connections, remote write limits, read-only targets, refused login; a second sender at any command of the first',
     'no test talks to a server', ['impactutils/transfer/securesender.py', 'impactutils/extern/scp/scp.py'],
     [('remote shell commands', 'SecureSender._make_remote_folder, _check_remote_folder, cancel'), ('copy then rename', 'SecureSender._copy_file_with_path')],
     HYP + 'A real SSH server (paramiko) on the loopback runs the commands with sh and OpenSSH scp as an unprivileged user.', 'stateful model-based testing against a loopback SSH server with faults')

prop('C27', 'Senders refuse incomplete input and own what they are given',
     'Every sender class refuses a missing required property (RequiredArgumentError), local files that are not a list (TypeError) and files or directories that do not exist (FileNotFoundError), also when added later, and the class factory knows exactly its five names. '
     'A sender sends exactly the files and properties it was given or told to add: later changes to the caller\'s dictionary and list, or to another sender built from them, have no effect, and the sender never changes the caller\'s objects.',
     ['inputs', 'histories'], 'any subset of the required properties, wrong types, missing files; histories of up to 8 operations on two senders built from the same objects',
     'the tests build each sender once', ['impactutils/transfer/sender.py', 'impactutils/transfer/factory.py'],
     [('validation', 'Sender.__init__, addFiles, changeDirectory'), ('factory', 'get_sender_class')],
     HYP, 'stateful model-based testing of two senders sharing their inputs')

prop('C28', 'Web queries retry once, never invent data, and read it right',
     'Queries of ComCat and GeoServe ask for exactly the given event or place, ask a second time after a 503 answer, and raise if the data does not arrive; getters return the answer\'s places, regions (without metadata), authority, event parameters (time to the second), and each event id paired with its own source. '
     'A ShakeMap grid is written to the local file completely, or None is returned and an existing file stays as it was.',
     ['inputs', 'faults'], 'scripts of answers (data, HTTP errors, lost connections) to each request, generated answers',
     'no test can talk to the services', ['impactutils/comcat/query.py'],
     [('download with a second attempt', '_get_url_data'), ('ids and sources', 'ComCatInfo.getAssociatedIds, getAssociatedSources'), ('geoserve', 'GeoServe.*')],
     HYP + 'urlopen is replaced by a scripted stand-in; sleeping is skipped.', 'property-based testing against a scripted web')

prop('C29', 'SCP copies files and trees identically both ways, and never hangs',
     'The bundled SCP client puts and gets single files, lists of files and whole trees (with empty directories) byte for byte under the right names, whatever characters these have, with the file modes, and with the times if asked; progress reports end at the full size. '
     'If the connection is lost at any byte, the remote command fails, or a file becomes shorter while it is being sent, put and get raise instead of waiting forever or reporting success; bytes added to a file meanwhile are not sent. '
     'Whatever a server answers, get changes nothing outside of the local path, and both raise unless the answers are complete and well-formed.',
     ['inputs', 'faults', 'histories'], 'trees of up to 6 files with awkward names, existing and new targets; connections lost after n bytes in either direction, failing remote commands; generated and broken protocol from a scripted server',
     'no test covers the client', ['impactutils/extern/scp/scp.py'],
     [('scp protocol', 'SCPClient._send_files, _send_recursive, _recv_all, _recv_file, _recv_pushd')],
     HYP + 'A real SSH server (paramiko) on the loopback runs OpenSSH scp as an unprivileged user; names with line ends are left out.', 'property-based testing (round trip through OpenSSH scp) with lost connections')

prop('C30', 'Time zone data is fetched whole, and nothing else is touched',
     'get_recent_timezone_data fetches the archive of time zone shapes to which the page of the latest release links, puts all of its files directly into the given directory, and returns the path of the shape file. '
     'Files and directories that are there already stay as they are unless the archive has a file of the same name. If there is no such link, or the page or the archive does not arrive whole, it raises.',
     ['inputs', 'faults'], 'release pages with up to 9 links, flat and nested archives with and without directory entries, up to 4 existing files, HTTP errors, lost and broken answers',
     'the download needs the network, no test runs it', ['impactutils/time/timeutils.py'],
     [('download', 'get_recent_timezone_data')],
     HYP + 'urlopen is replaced by a scripted stand-in; runs as an unprivileged user.', 'property-based testing against a scripted web')

prop('C31', 'Rupture drawings show the rupture',
     'plot_rupture_wire3d draws exactly the closed outline of every quadrilateral of a rupture (longitude, latitude, depth downwards), inside of the axes, into the 3D axis it is given or a new one, and refuses an axis that is not 3D. '
     'map_rupture draws a line through exactly the points of the rupture outline, and the map contains them all.',
     ['inputs'], 'quad and edge ruptures of 1-3 groups; maps only away from the poles and the antimeridian',
     'no test calls them', ['impactutils/rupture/plotrupture.py'],
     [('wire frame', 'plot_rupture_wire3d'), ('map', 'map_rupture')],
     HYP + 'Colours and decoration are not judged.', 'property-based testing against the corners of the generated rupture')

prop('C32', 'Geographic points, projections and boxes of the vendored library are exact',
     'A geographic point refuses coordinates outside of the globe, and its distance, azimuth, destination, equally spaced points, circle, mesh distances and Cartesian position are those of spherical geometry, whatever side of the date line they lie on; '
     'points are equal exactly within one metre. '
     'A bounding box holds its points across the date line or is refused if they span more than 180 degrees, the orthographic projection maps its middle to the origin and back and refuses points more than 90 degrees away, '
     'and self-intersection, plane fit, polygon distance and closest object agree with plane geometry. No call changes its arguments.',
     ['inputs'], 'all positions on the globe, spacings, radii and meshes; collections of up to 8 points; scalars, lists and arrays of one or two dimensions',
     'no test imports these modules', ['impactutils/extern/openquake/point.py', 'impactutils/extern/openquake/utils.py'],
     [('point geometry', 'Point.*'), ('boxes, projection, lines, planes', 'utils.get_spherical_bounding_box, OrthographicProjection, line_intersects_itself, plane_fit')],
     HYP + 'Oracle: own vector geometry on the sphere of 6371 km. Circles that hold a pole are left out (OpenQuake polygons cannot).', 'differential testing against vector geometry on the sphere')
