import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=['src/pyg2p/'+f for f in files],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
A='main/manipulation/aggregator.py'; G='main/readers/grib.py'; I='main/interpolation/__init__.py'; S='main/interpolation/scipy_interpolation_lib.py'; GI='main/interpolation/grib_interpolation_lib.py'; CT='main/controller.py'; CX='main/context.py'; CF='main/config.py'
p('C01','Missing data stay missing and valid data stay present, end to end',
 'A target cell is missing in the output map of a time step whenever a source value that contributes to it (with a non-zero weight) is missing in any message used for that step, or the cell is outside the clone map or has no coordinates; it is never filled with a number made from a missing-value code. A cell whose contributing values are all present and which is inside the clone map gets a finite value. This holds for every interpolation method, aggregation, conversion, correction and output format.',
 ['inputs','configurations'],'all placements of missing source points (up to a bound) x interpolation methods x aggregations x conversion x output formats',
 'Tests compare a few large maps with stored results; the sample GRIB files contain no or few missing points, so combinations of missing points, aggregation, conversion and format are never exercised.',
 [G,I,A,'main/manipulation/conversion.py','main/writers/netcdf.py','main/writers/pcr.py','main/writers/__init__.py'],
 [('bitmap to mask','GRIBReader.select_messages'),('mask handling','Interpolator, Aggregator, Converter, writers')],['output files of pyg2p_exe','result of Pyg2pApi.execute'])
p('C02','Accumulation is the difference of the accumulated field over each interval',
 'For every aggregation step ending at t within the requested period, the accumulated output is (v(t)-v(t-step))*unitTime/step, where v is the message value at that hour, linearly interpolated in time between the neighbouring messages when there is none, and zero at hour 0 when there is no message 0 (or when the zero array is forced). Outputs exist exactly for the interval ends start, start+step, ... up to the end, are identified by their interval, and do not depend on the order of the messages.',
 ['inputs','configurations'],'all sets of available message steps within a horizon x start, end, aggregation step, unit time, forced zero array, message order',
 'Tests use two or three fixed message layouts with regular steps; gaps, irregular steps, missing first message and start offsets are not sampled.',
 [A,CT],[('accumulation','Aggregator._accumulation'),('window','Aggregator.get_real_start_end_steps')],['Aggregator.do_manipulation','output files of pyg2p_exe'])
p('C03','Average weighs every hour of its window as specified',
 'The averaged output of an interval (t-step, t] is the mean, over each hour of the interval, of the next available message; with half weights it is the mean of the messages present in [t-step, t] with the two end points weighing half. Outputs exist exactly for the consecutive intervals of the requested period, accumulated parameters are refused with an error, and the order of the messages does not matter.',
 ['inputs','configurations'],'all sets of available message steps within a horizon x start, end, aggregation step, half weights, step type, message order',
 'Tests check one regular layout; window bounds and gaps are off-by-one territory that a handful of samples cannot settle.',
 [A,CT],[('average','Aggregator._average')],['Aggregator.do_manipulation','output files of pyg2p_exe'])
p('C04','Instantaneous aggregation picks the message at, or next after, each step',
 'For every step of the requested period the instantaneous output equals the message at that step, or the first later message when there is none, or zeros for hour 0 when there is no message 0. Outputs exist exactly for the steps spaced by the aggregation step, from one step before the requested start (if that is after hour 0, else from the start) to the end; accumulated parameters are refused with an error.',
 ['inputs','configurations'],'all sets of available message steps within a horizon x start, end, aggregation step, step type, message order',
 'Only one layout is tested.',[A,CT],[('instantaneous','Aggregator._instantaneous')],['Aggregator.do_manipulation','output files of pyg2p_exe'])
p('C05','Conversion applies the configured function to every valid value and nothing else',
 'The configured conversion with the requested id is applied exactly once to every non-missing value of every message of the parameter, at both resolutions; missing values remain missing. When cut-off of negatives is configured, negative results become zero after aggregation, and non-negative ones are untouched; without it negative values are kept. Unknown parameters or conversion ids are refused with an error.',
 ['inputs','configurations'],'conversion functions x cut-off x value patterns incl. missing, negative and missing-value-like values x aggregation',
 'Tests use two functions on one array each and never with missing values and cut-off together.',
 ['main/manipulation/conversion.py',CT,CF,'__init__.py'],[('conversion','Converter.convert / cut_off_negative'),('lookup','ParametersConfiguration.get_conversion')],['Converter','output files of pyg2p_exe'])
p('C06','Altitude correction applies the configured formulas cell by cell',
 'A corrected cell equals the correction formula evaluated on the interpolated value, the DEM value of that cell and the interpolated result of the geopotential formula for the grid of that message, in the CLI as in the API. It is missing where the value, the DEM or the geopotential is missing. The geopotential used is the one registered for the grid of the input, or the input itself when it carries one.',
 ['inputs','configurations'],'formulas x gem formulas x missing patterns of dem/values/geopotential x interpolation methods x formats',
 'Tests run one formula on one data set and compare against stored maps.',
 ['main/manipulation/correction.py','main/writers/__init__.py','main/api.py',CX],[('correction','Corrector.correct'),('geopotential lookup','Context.geo_file, GeopotentialsConfiguration.get_filepath')],['output files of pyg2p_exe','Pyg2pApi.execute'])
p('C07','Exactly the messages matching the selectors are read',
 'The time steps written are exactly those of the messages in the input file that match the parameter short name (as given, upper case, or with suffix var), level, data time, data date, ensemble member and the start and end steps of the request, each with the values of its own message. The result does not depend on the order of messages in the file nor on other messages in it; when nothing matches, the execution reports that no messages were found and writes no maps.',
 ['inputs','configurations'],'files made of all small multisets of messages differing in each selector x all selector combinations x file orders',
 'Tests read two fixed files with two or three selector combinations.',
 [G,CX,CT],[('selection','GRIBReader.scan_grib/_find/select_messages'),('request','Context.create_select_cmd_for_reader')],['output files of pyg2p_exe','GRIBReader.select_messages'])
p('C08','Nearest methods take the value of the nearest source point',
 'With the nearest and grib_nearest methods, every target cell covered by the source grid gets the value of a source point at minimum great-circle distance; cells not covered get the missing value. This holds for any position of the target, including across the date line, longitudes given as 0-360 or -180-180, poles and grids with rows of different length.',
 ['inputs'],'all target positions on a lattice around and across source grids (limited area, global, date line, polar, reduced)',
 'Tests compare with stored maps for one source grid.',
 [S,GI,I],[('kd-tree lookup','ScipyInterpolation._build_nn'),('eccodes lookup','grib_interpolation_lib.grib_nearest')],['Pyg2pApi.execute','output files of pyg2p_exe'])
p('C09','Weighted methods give a local convex combination of source values',
 'With invdist, grib_invdist, adw, cdd, bilinear, triangulation and bilinear_delaunay every covered target cell is a combination with non-negative weights summing to one of the values of source points around it: a constant field stays constant, values stay within the range of the source points close to the cell, and a cell coinciding with a source point gets its value (except with cdd, whose weights decay exponentially). Weights of invdist are inversely proportional to the squared distance, those of grib_invdist to the distance, and the planar methods reproduce positions. Longitudes of the target may be given as 0-360 or -180-180. Cells not covered by the source grid are missing (adw and cdd extend beyond it).',
 ['inputs'],'all target positions on a lattice of sub-cell offsets x unit fields of every source point x methods x grids',
 'Tests compare a few stored maps with tolerance and do not look at the weights.',
 [S,GI,I],[('weights','ScipyInterpolation._build_weights*'),('eccodes weights','grib_interpolation_lib.grib_invdist')],['Pyg2pApi.execute','ScipyInterpolation.interpolate'])
p('C10','Parallel, broadcast and split computations give the sequential result',
 'The result of an execution does not depend on whether the interpolation table is computed with the parallel option, with broadcasting, or in any number of splits.',
 ['inputs','configurations'],'methods x parallel x broadcasting x number of splits x grids and targets, incl. more splits than rows',
 'Tests run each option on its own against loose tolerances, on one grid.',
 [S,GI,I],[('parallel','grib_interpolation_lib.*_parallel, njobs'),('splits','ScipyInterpolation.interpolate_split')],['Pyg2pApi.execute','ScipyInterpolation.interpolate'])
p('C11','A stored interpolation table gives the same result as computing it anew',
 'Executing with a stored interpolation table (compressed or not, from the user or the alternate folder) gives for every input field the same output as an execution that computes the table, whatever the field the table was created from, including its values and missing points. Without a table and without permission to create one the execution fails and creates nothing.',
 ['inputs','histories'],'pairs of creating field and using field over value/missing patterns x methods x storage variants',
 'Tests use pre-computed tables or create tables, never compare both on different fields.',
 [I,S],[('table storage','Interpolator._read_intertable and its storing counterpart')],['output files of pyg2p_exe, intertables.json and the tables folder'])
p('C12','Interpolation tables of different set-ups are never mixed up',
 'Whatever sequence of executions, deletions of table files and configuration checks precedes it, an execution uses a table made for its own source grid, target coordinates and interpolation method: the result equals that of the same execution in a fresh environment. Every entry of the table configuration refers to a table made for that entry, and no table in use is overwritten by one for another set-up.',
 ['histories'],'all sequences up to a depth of executions over several grids, targets and methods, file deletions, configuration checks and process restarts',
 'Tests use one table at a time, with the registry reset by the harness.',
 [I,CF,'main/interpolation/latlong.py','__init__.py'],[('table id','Interpolator._intertable_filename, GribGridDetails._build_id'),('registry','IntertablesConfiguration')],['output files, intertables.json, tables folder'],
 [('user_vars/vars','registered tables, user and merged','IntertablesConfiguration'),('_LOADED_INTERTABLES','tables loaded in the process','Interpolator')])
p('C13','A crash or write failure never corrupts configuration or tables',
 'If the process is killed or a write fails at any point while interpolation tables, user configuration files or geopotentials are being written, every later execution works and gives the same result as in an undisturbed environment, and nothing that was registered before is lost.',
 ['crash_points','fault_sequences'],'every file-system operation (open, write incl. torn writes, rename, remove, copy) of the writing scenarios x kill or I/O error, followed by a recovery execution',
 'No test injects a fault.',
 [I,CF],[('atomic replace','BaseConfiguration.dump, Interpolator table storing'),('copy','GeopotentialsConfiguration.add')],['intertables.json, geopotentials.json, parameters.json, tables folder, later outputs'])
p('C14','Concurrent executions do not disturb each other',
 'For any interleaving of executions of several processes that share the user configuration and the table folder, each produces the output it produces alone, every table created is registered afterwards, and every registered table is the right one.',
 ['schedules'],'all interleavings (up to a preemption bound) of file-system operations of two processes creating or using tables, over pairs of executions',
 'Tests run one process.',
 [I,CF],[('registry update','IntertablesConfiguration'),('table storing','Interpolator')],['outputs of both processes, intertables.json, tables folder'])
p('C15','The geopotential registry maps each grid to its own geopotential file',
 'After any sequence of adding and removing geopotentials, by command or API and over restarts, looking up a grid gives the file that was added for that grid with its content; adding a second geopotential for a registered grid, or one whose file name belongs to another grid, is refused without changing anything; removed ones are no longer found. Lookups search the alternate folder first, then the user folder, then the global one.',
 ['histories'],'all sequences up to a depth of add/remove/lookup/restart over several grids and file names',
 'Tests add one file once.',
 [CF,'main/__init__.py',CX],[('registry','GeopotentialsConfiguration.add/remove/get_filepath')],['geopotentials.json, geopotentials folder, get_filepath'],
 [('vars','grid id to file name','GeopotentialsConfiguration')])
p('C16','Downloads are complete or absent, and resumable',
 'After a download of configuration data that failed or was interrupted at any point, repeating it leaves in the local folder every remote file with its complete content, existing complete files are not transferred again, and a file is never left under its final name with partial content.',
 ['fault_sequences','crash_points'],'remote listings x interruption at every FTP command and every transferred block x repetition',
 'Tests do not exercise the download at all.',
 [CF,'main/__init__.py'],[('download','Configuration.download_data')],['local folder after the command -W'])
p('C17','Command line options override the command file, which overrides defaults',
 'For every option that can be given on the command line and in the JSON command file, the effective value is the command-line one if given, else the one of the command file, else the documented default; options do not affect each other. The API follows the same rule for its dictionary.',
 ['configurations'],'each option x given/not given on each level with boundary values, and pairs of options',
 'Tests check a handful of options with a single value each.',
 [CX,'main/api.py'],[('merge','ExecutionContext._define_input_args/_define_exec_params'),('API merge','ApiContext._define_exec_params')],['ExecutionContext values; output names, times and files'])
p('C18','A command built with the builder runs as the same command line',
 'A command object built from a command string, parameters and any sequence of builder calls represents exactly the options given, the last value of each option winning, and running it is equivalent to running the tool with these options.',
 ['programs'],'all builder call sequences up to a depth over options with values, flags and templates',
 'Tests check three strings.',
 ['main/api.py','util/strings.py'],[('builder','Command'),('parsing','to_argdict, to_argv')],['str(Command), Command.run'])
p('C19','Failures end in a non-zero status and an error message, never a wrong map',
 'An execution that cannot do what is requested (missing or wrong inputs, options, command file entries, configuration) ends with a non-zero status (zero only for the documented case that no messages match), without a traceback for the errors the tool declares, and without writing maps for it; a successful execution ends with status zero and writes all its maps.',
 ['configurations','inputs'],'each single defect injected in an otherwise valid set-up, and pairs of defects',
 'Tests check a few error codes.',
 ['main/__init__.py',CX,'exceptions.py'],[('error mapping','pyg2p_exe, execute')],['return value of pyg2p_exe, output folder'])
p('C20','NetCDF output encodes the values faithfully',
 'Reading the netCDF output (with scale factor, offset and value format as requested) gives back each value within the quantisation of the format, missing cells as missing and only those, on the coordinates of the target maps, with the name, units, valid range and other attributes requested.',
 ['configurations','inputs'],'value formats x scale/offset x valid range x missing patterns x clone masks x number of steps',
 'Tests compare one default-format file.',
 ['main/writers/netcdf.py','main/writers/__init__.py'],[('encoding','NetCDFWriter.write')],['the netCDF file'])
p('C21','The netCDF time axis gives the time of each map',
 'Decoding the time coordinate (value, units, reference date) of each map gives the reference date and time of the data plus the step of the map, for any data date and hour, GRIB step unit and requested output unit; maps are in chronological order.',
 ['configurations','inputs'],'data dates and times x GRIB step units x output step units x step sets',
 'Tests cover hours only.',
 ['main/writers/netcdf.py','__init__.py',G],[('units','NetCDFWriter.write'),('reference','Messages.data_date')],['time variable of the netCDF file'])
p('C22','Each PCRaster map has its own name and the values of its time step',
 'The map of the i-th time step in chronological order is written to the 8.3 name made of the prefix (shortened when it leaves no room for the numbers) and the number first+(i-1)*increment, distinct steps give distinct files, and each holds the values of its step on the georeference of the clone map.',
 ['configurations','inputs'],'prefix lengths x first number x increment x numbers of steps',
 'Tests use one prefix and two numberings.',
 ['main/writers/pcr.py','main/writers/__init__.py'],[('naming','OutputWriter._name_pcr_map'),('writing','PCRasterWriter.write')],['output folder'])
p('C23','The API returns the maps that the command line writes',
 'For the same request, the arrays returned by the API are the maps written by the command line tool: same time steps, same values, same missing cells.',
 ['configurations','inputs'],'methods x aggregations x conversion x correction x selectors x missing patterns',
 'Tests compare the API with stored maps for few requests.',
 ['main/api.py',CT,'main/writers/__init__.py'],[('API execution','Pyg2pApi.execute'),('CLI execution','OutputWriter.write_maps')],['Pyg2pApi.execute, output files'])
p('C24','Executions in one process do not influence each other',
 'The result of an execution does not depend on the executions that ran before it in the same process, nor does an earlier result change afterwards.',
 ['histories'],'all sequences up to a depth over a set of executions differing in one aspect at a time (grid, target, method, formulas, dem, inputs replaced in place, failing ones)',
 'Tests run requests in one fixed order.',
 ['main/manipulation/correction.py',I,CF,G],[('caches','Corrector.instances, Interpolator._LOADED_INTERTABLES, GlobalConf.instance')],['outputs of each execution'],
 [('instances','correctors by set-up','Corrector'),('_LOADED_INTERTABLES','tables by path','Interpolator')])
p('C25','Data with two spatial resolutions give one consistent series',
 'When messages come in two resolutions, in one file or in two input files, the output has one map per time step in chronological order: steps from each resolution are computed from its own messages on its own grid, with the conversion, aggregation and correction of the request.',
 ['inputs','configurations'],'change points x steps x aggregation x methods x one or two files',
 'Tests use one multi-resolution file and compare counts.',
 [CT,G,'__init__.py','main/writers/__init__.py'],[('split by resolution','GRIBReader.select_messages'),('second series','Controller.second_res_manipulation')],['output files of pyg2p_exe'])
p('C26','User configuration extends and overrides the global one, variables resolve fully',
 'User entries override global ones of the same key and all others stay available; every {VARIABLE} in the maps of a command file is replaced by the value from the user configuration files, and an undefined one is reported as an error naming it. Reading the configuration never changes what the user wrote.',
 ['configurations'],'variable names/values/files, references per field, and entries of the configuration files over small alphabets',
 'Tests resolve two variables.',
 [CF,CX],[('merge','BaseConfiguration.merge_with_user_conf'),('variables','UserConfiguration.interpolate_strings')],['ExecutionContext values, files in the user folder'])
p('C27','Executions release what they open',
 'After an execution has ended, successfully or not (also when any call of the GRIB library fails), no file it opened remains open and no GRIB message or index it loaded remains allocated in the process, so that any number of executions can follow one another.',
 ['histories','fault_sequences'],'every kind of execution (methods, formats, aggregation, correction, two inputs, failing ones), repeated',
 'Tests never look at open files.',
 [G,CT,'main/writers/netcdf.py','main/writers/pcr.py','main/interpolation/latlong.py'],[('closing','Controller.close, GRIBReader.close')],['open file descriptors of the process'])
p('C28','The result depends only on the selected messages',
 'Messages that the selectors of a request (parameter, level, date, time, member, range of steps) exclude have no influence on any output: adding them anywhere in the input file, with any steps, types of step, grids or missing values, and reordering the messages of the file, leave the maps, their times, names and metadata, and the outcome of the execution as they are with the selected messages alone - also when the request aggregates, converts, or goes through the API.',
 ['inputs','configurations'],'sets of selected messages x other messages (what differs, steps, contents, position) or orders x requests',
 'Tests use one file per parameter, with a single level, date and member.',
 [G,CT,CX],[('attributes of the series','GRIBReader.get_grib_info'),('selection','Context.create_select_cmd_for_reader')],['output files of pyg2p_exe, results of the API'])
p('C29','The log level decides what is logged and nothing else',
 'Executions with the same request and different log levels (option or key of the API) give the same maps or arrays, the same status, leave the same tables, registries and other files, and report the same number of errors; the level decides only which other messages are logged. This holds for every entry point, aggregation, interpolation method, correction, place of the tables, and for executions that fail.',
 ['configurations','inputs'],'requests and failures x aggregations and message sets x methods x places of tables x levels',
 'Tests run at one level; code that runs for one level only (guarded messages, formatting of values that are missing, empty or masked) is not reached.',
 [A,I,CT,'__init__.py','main/writers/__init__.py'],[('guards','self._logger.isEnabledFor'),('level','logger.setLevel')],['outputs, files left, log records'])
p('C30','How the path of a file is written does not matter',
 'The result of an execution and the files it leaves depend on which files and folders the request and the configuration name, not on how their paths are written: relative to the working folder or absolute, through symbolic links, with spaces, signs, letters of other alphabets, dots, without extension, with repeated or trailing slashes, given as option, in the command file, through the API, the builder or the user configuration; and a relative path means the file under the working folder of the execution, also when an earlier execution of the process ran in another one.',
 ['configurations','histories'],'files and folders of a request x forms of their paths (singly, pairs, all) x working folders x entry points; sequences over two working folders',
 'Tests use a few relative paths from one working folder.',
 [CX,G,I,'main/api.py','main/interpolation/latlong.py',CF,'main/manipulation/correction.py'],[('maps told by extension','LatLong, Dem'),('paths of inputs','GRIBReader'),('caches by path','Corrector, Interpolator')],['outputs and folders after executions'])
with open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for d in P:
        assert len(d['title'])<=80,(d['id'],len(d['title']))
        f.write(json.dumps(d)+'\n')
