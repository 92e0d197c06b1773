"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
A = 'src/pyg2p/main/manipulation/aggregator.py'
CV = 'src/pyg2p/main/manipulation/conversion.py'
CO = 'src/pyg2p/main/manipulation/correction.py'
CT = 'src/pyg2p/main/controller.py'
CX = 'src/pyg2p/main/context.py'
API = 'src/pyg2p/main/api.py'
CF = 'src/pyg2p/main/config.py'
IN = 'src/pyg2p/main/interpolation/__init__.py'
SC = 'src/pyg2p/main/interpolation/scipy_interpolation_lib.py'
GI = 'src/pyg2p/main/interpolation/grib_interpolation_lib.py'
LL = 'src/pyg2p/main/interpolation/latlong.py'
GR = 'src/pyg2p/main/readers/grib.py'
PR = 'src/pyg2p/main/readers/pcr.py'
NR = 'src/pyg2p/main/readers/netcdf.py'
W = 'src/pyg2p/main/writers/__init__.py'
WP = 'src/pyg2p/main/writers/pcr.py'
WN = 'src/pyg2p/main/writers/netcdf.py'
M = 'src/pyg2p/main/__init__.py'
P = 'src/pyg2p/__init__.py'
ST = 'src/pyg2p/util/strings.py'
NU = 'src/pyg2p/util/numeric.py'

props = []
def add(id_, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    props.append(dict(id=id_, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                   mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))

add('C01', 'Accumulation maps are the unit-time scaled increment over each window',
    'Every accumulated map for the window (t-a, t] equals (field at t minus field at t-a) times unitTime/a, for every t from the first window end to the requested end (not after the last available step) in steps of a. '
    'A field that is not in the GRIB is the linear interpolation in time of its two bracketing fields; a missing step 0 is a field of zeros, and with forceZeroArray the field at the beginning of the first window is zeros even when the GRIB has it. '
    'A start of 0 or no start behaves like a start equal to the aggregation step.',
    ['inputs', 'configurations'],
    'all sets of available GRIB steps (regular, changing and gappy, with and without step 0), all aggregation steps, unit times, start/end requests, with and without forceZeroArray, all field values',
    'The tests run the aggregator on one GRIB with regular steps and compare only the set of output step keys, never a value; interpolated, gappy and zero-step histories are not reached.',
    [A, CT], [('accumulation loop with on-demand creation of missing fields', A + ':_accumulation'), ('first step to read', A + ':get_real_start_end_steps')],
    ['maps returned by the aggregation', 'output maps of a run with Aggregation type accumulation'])
add('C02', 'Average maps are the documented time-weighted mean of each window',
    'Without half weights the map for the window (s, s+a] is the sum over each hour h of the window of the first available GRIB field at or after h, divided by a. '
    'With half weights it is the trapezoidal mean of the evenly spaced fields of the window (the two end fields count half an interval and interior fields a full one). '
    'A start of 0 or no start behaves like a start equal to the aggregation step, and the windows are consecutive up to the requested end.',
    ['inputs', 'configurations'],
    'all sets of available GRIB steps, aggregation steps, start/end requests, half-weight settings, field values',
    'The tests compare only the step keys of averages for one file; weights and values are never compared with the documented formula.',
    [A, CT], [('hourly walk with next-available lookup', A + ':_average'), ('first step to read', A + ':get_real_start_end_steps')],
    ['maps returned by the aggregation', 'output maps of a run with Aggregation type average'])
add('C03', 'Instantaneous aggregation picks the exact step or the next available one',
    'The map produced for step t is the GRIB field at step t when there is one and otherwise the first available field after t, and an absent step 0 is a field of zeros. '
    'Maps are produced every aggregation step from the first (start minus the aggregation step when positive, else start) to the requested end. Averaging or instantaneous extraction of an accumulated parameter is rejected with an error instead of producing maps.',
    ['inputs', 'configurations'],
    'all sets of available GRIB steps, aggregation steps, start/end requests, step types and field values',
    'One file and its keys are tested; the choice of field per step is not compared.',
    [A, CT], [('next-available lookup', A + ':_instantaneous'), ('step type guard', A)],
    ['maps returned by the aggregation', 'exit status and output maps'])
add('C04', 'A missing source value is never turned into data',
    'If a source cell is missing in the GRIB, every output value that depends on it is missing in the written map, and it never becomes a finite number derived from the missing-value code. '
    'Conversely an output value none of whose source cells is missing, and whose target cell has coordinates and is inside the clone area, is not missing merely because other source cells are. '
    'This holds through conversion, negative cut-off, aggregation, interpolation (with a new or a stored table), correction and both output formats.',
    ['inputs', 'configurations'],
    'all bitmaps (per message), all parameter values including the missing-value code itself as neighbour, all combinations of processing stages, interpolation modes and output formats',
    'No test GRIB with a bitmap is checked for where the missing values end up; each stage re-creates masks separately, so a leak shows only in a combination.',
    [GR, CV, A, IN, NU, WP, WN], [('bitmap to mask', GR + ':select_messages'), ('mask union', NU + ':get_masks'), ('append of missing value', IN + ':_interpolate_scipy_append_mv'), ('mask to no-data', WP), ('mask to fill value', WN)],
    ['cells of the written maps', 'maps returned by the API'])
add('C05', 'Conversion applies the configured function; cut-off leaves no negatives',
    'With a conversion configured, every valid value of every message is replaced by the configured function of it and nothing else changes (identity conversion changes nothing). '
    'With negative cut-off on, no output value is negative and values that were not negative are unchanged; with it off negative values survive. '
    'Conversion happens before aggregation and cut-off after it.',
    ['inputs', 'configurations'],
    'all values, conversion expressions, cut-off flags and missing patterns, through single and double resolution runs',
    'Tests check one formula on one field; order against aggregation and the flag handling are not covered.',
    [CV, P, CT, CX], [('expression evaluation under missing-value guard', CV + ':convert'), ('cut-off', CV + ':cut_off_negative'), ('order', CT + ':execute')],
    ['converted message values', 'output maps'])
add('C06', 'Exactly the requested GRIB messages are read, with their own values and steps',
    'The messages used are exactly those whose short name, perturbation number, level, data date, data time and step range match the request, whatever the order of messages in the file and whatever else the file holds. '
    'Each is used once, under its own start and end step, with exactly the values stored in the file. The file facts used for processing (first and last step, input step, step type, missing value) are those of the matching messages.',
    ['inputs', 'configurations'],
    'all files mixing parameters, levels, members, dates, times, steps, editions and orders, and all selector combinations',
    'Tests count messages in three fixed files; combinations of selectors, member indexes and message orders are not reached.',
    [GR, CX], [('index plus predicate filter', GR + ':scan_grib'), ('select command', CX + ':create_select_cmd_for_reader'), ('file facts', GR + ':get_grib_info')],
    ['messages returned by the reader', 'output maps'])
add('C07', 'nearest and invdist maps agree with a brute-force great-circle search',
    'With nearest every target cell gets the value of the closest source point on the sphere, and with invdist the inverse-squared-distance mean of the four closest ones (or exactly the source value on a source point). '
    'A cell farther from every source point than about one source grid spacing, or without coordinates, is missing. The parallel flag does not change the result.',
    ['inputs', 'configurations'],
    'all source grids (regular, reduced, rotated; regional, global and across the date line), all target grids and target sizes, all values, parallel on and off',
    'Tests compare the shape of the result for one grid and one target; weights and neighbours are not compared with an independent search.',
    [SC, IN], [('k-d tree on 3D positions', SC + ':ScipyInterpolation'), ('cut-off radius', SC), ('table application', IN)],
    ['interpolated maps', 'stored interpolation table'])
add('C08', 'Angular and correlation-distance weighting follow their published formulas',
    'adw gives each target cell the weighted mean of its nearest stations with Shepard distance weights multiplied by one plus the directional term, and cdd the same with correlation-distance weights in the configured mode and options. '
    'The weights of a cell are non-negative and sum to one whenever a station has weight, so a constant field stays constant and results stay within the range of the stations used. '
    'Broadcasting on or off and any number of splits give the same result as the plain computation.',
    ['inputs', 'configurations'],
    'all station layouts and values, targets, correlation-distance maps, modes and options, use_broadcasting and num_of_splits settings',
    'Tests check shapes (and one slow cdd run); equivalence of the variants and the formula are not checked.',
    [SC], [('Shepard weights', SC + ':adw_compute_weights_from_cutoff_distances'), ('CDD weights', SC), ('directional weights', SC + ':_build_weights_invdist'), ('split loop', SC + ':interpolate')],
    ['interpolated maps', 'stored interpolation table'])
add('C09', 'Bilinear and triangulation modes are convex, and exact where they must be',
    'Each interpolated value is a combination of the enclosing source points with weights in [0,1] that sum to one, and the weights of a cell applied to the source coordinates reproduce the cell position. '
    'Hence a constant field stays constant, a target cell on a source point gets its value, and on a regular grid bilinear is the textbook formula (triangulation likewise the barycentric one). '
    'Cells outside the source area are missing, never extrapolated.',
    ['inputs', 'configurations'],
    'all source grids (regional and global, regular, reduced and rotated), target grids, values',
    'Tests check the shape of the result on one regional grid.',
    [SC], [('quadrilateral search and fsolve', SC + ':_build_weights_bilinear'), ('Delaunay triangles', SC + ':_build_weights_triangulation')],
    ['interpolated maps', 'stored interpolation table'])
add('C10', 'grib_nearest and grib_invdist follow the ecCodes neighbours, serial or parallel',
    'Every target cell with coordinates gets, with grib_nearest, the value ecCodes reports as nearest to it and, with grib_invdist, the inverse-distance mean of the four neighbours ecCodes reports (exactly the point value on a grid point). '
    'Cells without coordinates or outside the GRIB area are missing. Serial and parallel computation give the same table and map.',
    ['inputs', 'configurations'],
    'all source grids and target grids including cells with no coordinates and out-of-area cells, any target size, serial and parallel',
    'Tests compare shapes for one grid; parallel is not compared with serial on cells without coordinates.',
    [GI, IN], [('serial search', GI + ':grib_nearest'), ('parallel search', GI + ':init_parallel'), ('table application', IN + ':grib_inverse_distance')],
    ['interpolated maps', 'stored interpolation table'])
add('C11', 'A stored interpolation table gives the same map, and is only created on request',
    'A run that finds a stored table (plain or gzip) produces the same map as the run that created it, without rewriting the table. '
    'A table that does not exist is created only when creation is requested, and otherwise the run fails and no map is written. '
    'Creating a table never overwrites a different existing table file, and the user registry afterwards has an entry that leads to it.',
    ['histories', 'configurations'],
    'all sequences of runs with different grids, targets, modes, creation flags, table directories, tables removed, gzipped or un-gzipped between runs, in one process or several',
    'Tests exercise a single create or a single read per mode; reuse across processes, compression and name collisions are not.',
    [IN, CF], [('identifier and file name', IN + ':_intertable_filename'), ('load with gzip fallback', IN + ':_read_intertable'), ('registry update', IN + ':update_intertable_conf')],
    ['output maps', 'table directory', 'user registry file'], [('table cache', 'tables already loaded in this process', IN + ':_LOADED_INTERTABLES')])
add('C12', 'What a run produces does not depend on earlier runs in the same process',
    'For any sequence of runs in one process (command line or API), each run produces the same files, values and status as the same run made in a new process on the same files. '
    'Configuration edits made between runs are honoured.',
    ['histories'],
    'all sequences of runs mixing parameters, grids, modes, corrections, formats, failing runs and configuration edits',
    'Each test runs one thing; caches of tables, correctors and configuration are shared by all runs of a process.',
    [IN, CO, CF, M], [('table cache', IN), ('corrector cache', CO + ':get_instance'), ('global configuration singleton', CF)],
    ['output maps and exit status of each run'], [('corrector cache', 'correction data kept per process', CO + ':instances'), ('table cache', 'tables kept per process', IN)])
add('C13', 'PCRaster output: one 8.3-named map per step with the right cells and no-data',
    'A run in PCRaster format writes exactly one map per output step, in step order, named by the 8.3 rule from prefix, first map number and extension step. '
    'Each map has the size, georeference and no-data value of the clone, no-data exactly where the clone is no-data or the value is missing, and otherwise the computed value to single precision.',
    ['inputs', 'configurations'],
    'all values (including NaN, masked and the clone no-data code), clone masks, grid sizes, prefixes, first numbers and extension steps, numbers of steps, kinds of coordinate maps',
    'Tests read back one map; naming, no-data unions and numbering are not covered.',
    [W, WP, PR], [('name rule', W + ':_name_pcr_map'), ('mask union', WP + ':_mask_values')],
    ['files of the output directory'])
add('C14', 'netCDF output round-trips values, missing cells, coordinates and encoding',
    'Reading the written file back with its own scale factor, offset and fill value gives the computed values (to the precision of the chosen value format), missing exactly where the clone is missing or the value is missing or outside validMin/validMax. '
    'One time slice per step in increasing order, latitudes and longitudes equal to the target grid, units, names and value format as configured.',
    ['inputs', 'configurations'],
    'all values, clone masks, scale factors, offsets, value formats, valid ranges and prefixes, PCRaster or netCDF coordinate maps',
    'Tests never read back a netCDF written with packing, integer formats or valid ranges.',
    [WN, W, NR, LL], [('packing and fill', WN + ':write'), ('mask union', WN + ':_mask_values')],
    ['the written netCDF file'])
add('C15', 'Altitude correction applies the configured formula cell by cell',
    'With correction configured, every output cell equals the configured formula of its interpolated value, the interpolated gem value (the gem formula of the geopotential) and the DEM value. '
    'The geopotential is the one found in the input file when it has one, otherwise the one registered for the grid of the values; with none the run fails. '
    'Cells whose value, geopotential or DEM is missing are missing.',
    ['inputs', 'configurations'],
    'all formulas over p, z, gem, dem, all fields, DEMs with missing cells, geopotentials in the input or the registry, modes and formats',
    'One corrector test checks one formula on one data set; missing values, source of geopotential and several grids are not.',
    [CO, CX, CF], [('formula under missing-value guard', CO + ':correct'), ('geopotential lookup', CX + ':geo_file'), ('gem from geopotential', CO + ':_read_geo')],
    ['output maps'])
add('C16', 'Settings come from the command line, else the command file, else defaults',
    'For every setting that can be given both ways, the command line value is used when given, otherwise the one of the command file, otherwise the documented default. '
    'Path variables in braces are replaced by the values of the user .conf files, and an undefined variable is reported as an error naming it. '
    'Invalid requests (missing files, unknown mode, start after end, non-numeric level) are rejected before anything is written.',
    ['configurations', 'inputs'],
    'all combinations of presence and value of each option in the two places, all .conf contents and templates',
    'Tests build a handful of fixed contexts; the product of presence combinations and the explicit default value on the command line are not reached.',
    [CX, CF], [('argument parsing', CX + ':_define_input_args'), ('merge', CX + ':_define_exec_params'), ('validation', CX + ':_check_exec_params'), ('path variables', CF + ':interpolate_strings')],
    ['effective parameters', 'exit status', 'output names and values'])
add('C17', 'Exit status is truthful: 0 with all maps or no messages, else 1 with an error',
    'A run returns 0 exactly when it wrote every requested map, or when no message matches (then it writes none), and returns 1 after logging an error in every other documented failure. '
    'It does not end in an unhandled exception for a documented failure and leaves the input files unchanged.',
    ['fault_sequences', 'configurations'],
    'all documented failure conditions (missing or unreadable inputs, unknown parameter or conversion, no messages, missing table, missing geopotential, unwritable table folder, wrong mode) alone and combined, in both formats',
    'Tests look at a few error codes of contexts; the end-to-end status and the absence of partial output are not checked.',
    [M, CX, CT, WN], [('error to status', M + ':execute'), ('close on every path', CT + ':close')],
    ['exit status', 'output directory', 'log'])
add('C18', 'The programming interface gives what the command line gives',
    'For the same settings (values without spaces) the in-memory interface returns, per output step in order, the maps the command line would write (same cells, same no-data). '
    'A command built by chaining setters or from a string runs with exactly the options set, whatever the order, and returns the same status.',
    ['configurations', 'inputs', 'histories'],
    'all settings expressible in both, all sequences of setter calls and command strings with valued and flag options',
    'The tests compare one data set that is not available here and a few command strings.',
    [API, ST, CX], [('command builder', API + ':Command'), ('string to options', ST + ':to_argdict'), ('in-memory context', API + ':ApiContext')],
    ['returned maps', 'command string', 'exit status and files'])
add('C19', 'The geopotential registry maps each grid to its file, through any history',
    'After any sequence of additions and removals the registry (by grid identifier: type, longitudes and sizes) holds exactly the grids added and not removed, each resolving to a file with the content that was added, searched in the additional folder, then the user folder, then the global folder. '
    'Adding a second file for a registered grid is refused and changes nothing; looking up an unknown grid or one whose file is gone is an error. Adding through the command line option does the same.',
    ['histories'],
    'all sequences of add, remove, look-up and restart, all grids and file names, through class, API and command line',
    'One test adds a file once; histories and the command line option are not reached.',
    [CF, M, CX, GR], [('add/remove/lookup', CF + ':GeopotentialsConfiguration'), ('-g command', M + ':config_command')],
    ['registry file', 'geopotential folder', 'look-up results'], [('registry', 'grid id to file name', '~/.pyg2p/geopotentials.json')])
add('C20', 'User configuration overrides the global one and survives rewriting',
    'For every configuration file an entry of the user file overrides the global entry of the same key and all other global entries stay visible; missing user files are created with valid content and existing entries are never lost. '
    'Every NAME=value line of the user .conf files defines that variable with exactly that value, and comments and blank lines define nothing. '
    'A malformed configuration file gives a configuration error, not a silently empty configuration.',
    ['inputs', 'histories'],
    'all global and user JSON contents, all .conf texts, repeated loading',
    'Tests use the shipped configuration only.',
    [CF], [('merge', CF + ':merge_with_user_conf'), ('properties parser', CF + ':load_properties')],
    ['effective configuration', 'files in the user configuration folder'])
add('C21', 'Files with two spatial resolutions give one consistent series',
    'When messages change spatial resolution at some step (in one file or in two), every output step is computed and interpolated with the grid its own values are on, and steps before the change equal those of a single-resolution run. '
    'No step is lost, duplicated or interpolated with the other grid.',
    ['inputs', 'configurations'],
    'all pairs of grids, change steps, aggregation types and steps, one or two input files, modes and formats',
    'Only a count test on a reader exists; no multiresolution run is verified.',
    [GR, CT, W, API, P], [('second resolution detection', GR + ':select_messages'), ('two aggregations', CT + ':execute'), ('grid switch', W)],
    ['output maps'])
add('C22', 'A whole run equals the composition of its documented stages',
    'For any supported configuration the written maps are those of: select, convert, aggregate, cut off, interpolate, correct, mask by the clone, in that order, one per output step. '
    'The result does not depend on the order of messages in the input or on other messages in it.',
    ['inputs', 'configurations'],
    'all combinations of selectors, conversion, aggregation, interpolation mode, correction and output format on generated GRIBs and maps',
    'Tests check stages alone; no end-to-end output value is compared.',
    [CT, W, M], [('pipeline', CT + ':execute')],
    ['output maps'])
add('C23', 'The time axis states the true validity times of the maps',
    'For every netCDF output the written time coordinate, decoded with its units, equals the reference date and time of the data plus the end step (in hours) of the map, whatever the output step unit. '
    'Steps are strictly increasing and the unit is the requested one, or the source unit when it is not given or cannot be converted.',
    ['inputs', 'configurations'],
    'all reference dates and times of day, step lengths, output step units and aggregation settings',
    'The tests never decode a written time axis; only one reference hour appears in the test data.',
    [WN, P, GR], [('reference time', P + ':Messages'), ('step unit conversion', WN + ':write')],
    ['time coordinate of the written netCDF'])
add('C24', 'Damaged input is reported and never alters other files',
    'For any damaged GRIB, command file, coordinate map or stored table a run ends by itself with a status or an error, does not hang or kill the interpreter (unless the decoding library itself does), and changes nothing but its own output folder, the tables it creates and the documented user configuration. '
    'Undamaged messages of the requested parameter that are processed keep their true values.',
    ['fault_sequences', 'inputs'],
    'all byte-level mutations, truncations and concatenations of valid inputs and all structural mutations of command files',
    'No test feeds damaged input.',
    [M, GR, CX, CF], [('error handling at the entry point', M), ('file fallback without index', GR)],
    ['exit status', 'file system around the run', 'output maps'])
add('C25', 'Downloads bring complete files, once, into the folder of the user',
    'After a download of a data set (-W) which ends with status 0, every file that the server lists for it except readme.txt is in the folder of the user for that data set: with the bytes of the server, or as it was when it was already there. '
    'Files already there are neither transferred nor changed, and nothing else is written, also when the server lists paths. Any failure of login, folder, listing, transfer or connection ends with status 1 and an error. '
    'An interrupted, failed or killed download never leaves an incomplete file under the name of a file of the server, so that repeating it completes the folder. '
    'The access comes from ftp.json of the user or of the installation.',
    ['crash_points', 'fault_sequences', 'histories'],
    'all contents of the server and of the folders, all failures at any file and byte, and all repetitions',
    'No test downloads anything: it needs a server and its failures.',
    [CF, M], [('download', CF + ':download_data'), ('access', CF + ':FtpConfig')],
    ['files of the data folders', 'exit status', 'commands seen by the server'])
add('C26', 'A command ended at any point leaves what the user had, and can be repeated',
    'When a run which creates interpolation tables, or a change of the geopotential registry, is killed at any point, or finds no more space, the files of the user configuration are still complete JSON objects with every entry they had, and the '
    'registered tables and geopotential files have the same bytes. The same command repeated ends with status 0 and gives the same maps (or the same registered file) as if nothing had happened, and so do the commands done before. '
    'A run which finds no more space ends by itself with status 1 and an error, unless its maps are complete.',
    ['crash_points', 'fault_sequences', 'histories'],
    'all points and sizes at which a process can be ended or a write can fail, all histories of tables and geopotentials',
    'No test interrupts a run or fills a disk.',
    [CF, IN, M], [('writing of configuration files', CF + ':dump'), ('writing of tables', IN), ('end of runs', M + ':execute')],
    ['files of the user configuration and data folders', 'exit status', 'output maps of repeated runs'])
add('C27', 'Commands at the same time do not disturb each other',
    'Two commands of the same user which run at the same time (runs which create tables, for the same or other targets and sources, and additions of geopotentials), in any interleaving and also at the first use of the configuration, each '
    'end as they would alone: with status 0 and the same maps. Afterwards both are registered: runs without -B find the tables and give the same maps, each geopotential registered has the bytes of its own file, and no entry that was there before is lost.',
    ['schedules', 'histories', 'configurations'],
    'all interleavings of the file operations of the two commands',
    'Tests run one command at a time; the wrong tables and lost entries only show in later runs.',
    [CF, IN], [('registration of tables', IN), ('registries', CF + ':BaseConfiguration')],
    ['output maps of both commands and of later runs', 'registries'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(props))
