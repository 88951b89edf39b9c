"""Writes properties.jsonl (kept as a program because JSON lines are awkward to edit by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, obs, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=obs, hook_needed=None)))
core = 'gemlog/core.py'
p('C01', 'A raw file is read line for line, and its wrapping clock is unwrapped exactly',
  "Reading a raw file yields one sample, one metadata record and one GPS record for every complete line of that kind, in file order and with the values written there, and nothing else: unknown, blank, debug or incomplete lines contribute nothing. The millisecond counter, which wraps around at 8192, is unwrapped so that every record gets its true running time, whatever order sample, GPS and metadata lines come in around a wrap, and differenced sample values are accumulated exactly. A second file is placed after the first on the same running clock, whatever the wrap phase at the file boundary.",
  ['inputs', 'histories'], 'every sequence of line kinds up to a bounded length, in every wrap phase of the counter and every sample-value encoding',
  'The tests read a handful of recorded files; they never place wraps, one-element lines, GPS and metadata lines next to each other in every order.',
  [core, 'gemlog/parsers.pyx'], [('line parser', 'parsers.pyx:parse_gemfile'), ('unwrap and cumulate', 'core.py:_process_gemlog_data'), ('chaining files', 'core.py:_read_several')],
  ['read_gem: data, metadata, gps', 'convert: output files, gps and metadata logs'])
p('C02', 'Every raw-format version and reader gives the same recording',
  "The same recording stored in any supported raw-file format (0.8, 0.85, 0.85C, 0.9, 0.91, 1.10) yields the same samples at the same times, the same GPS fixes and the same metadata (as far as the format stores them). For formats 0.85C to 0.91 the fast file reader and its fallback reader agree on every well-formed file.",
  ['inputs', 'configurations'], 'every format version x recording shape (wrap phase, gap, value magnitude, several files), and each reader',
  'The tests compare the readers on a few files of one version; no test converts one recording stored in several formats.',
  [core, 'gemlog/parsers.pyx'], [('format dispatch', 'core.py:read_gem, _read_several, _read_single'), ('fast reader', 'parsers.pyx:parse_gemfile'), ('fallback readers', 'core.py:_read_with_pandas, _read_0_8_pd')],
  ['read_gem', 'convert outputs'])
p('C03', 'Output sample times agree with GPS time',
  "Every output sample carries the value the logger recorded at that sample's UTC time to within a few milliseconds, for any logger clock offset and rate error within specification, any wrap phase, and any GPS duty cycle that covers at least half of the file: a constant signal stays constant to the count, and waves below 15 Hz keep their amplitude and phase. Isolated wrong GPS fixes (up to two of sixty) do not change this, and a file whose GPS fixes contain a time step of half a second or more, or are too few or too short for a timing fit, is skipped rather than mistimed.",
  ['inputs', 'histories'], 'every combination of clock rate, start phase, GPS fix pattern, and position and size of wrong fixes in a bounded grid',
  'The tests check a few recorded files against stored results; they do not vary clock error, start phase or the place of bad fixes.',
  [core], [('time fit', 'core.py:_calculate_drift, _robust_regress, _detect_step'), ('apply fit', 'core.py:_apply_segments, _assign_times'), ('resampling', 'core.py:_interp_time')],
  ['convert output files', 'read_gem data, header and problems'])
p('C04', 'Implausible GPS fixes are discarded, plausible ones are all kept',
  "A GPS line whose latitude, longitude, lag, date or time is out of range, whose coordinate is exactly zero, whose second is fractional or whose date does not exist never reaches the GPS log, the reported location or the timing. Every other GPS line is kept with the values written, including at the limits of each range and in all hemispheres.",
  ['inputs'], 'every field at, just inside and just outside each limit, alone and in pairs, at every position among good fixes',
  'The tests have no file with out-of-range fields.',
  [core], [('range filter', 'core.py:_gps_in_bounds'), ('date check', 'core.py:_make_gps_time'), ('outlier dates', 'core.py:_find_breaks')],
  ['convert gps log', 'read_gem gps and header'])
p('C05', 'Recorded data come out exactly once, and gaps stay gaps',
  "Every recorded sample is represented exactly once in the converted output: nothing recorded is lost at file or block boundaries, nothing is duplicated, and no output exists where nothing was recorded. Data recorded without interruption across consecutive raw files come out without interruption, while an interruption of 0.05 s or longer (up to 1 s within a file, any length between files), within a file, between files, or from missing files, stays a gap of the same extent.",
  ['histories', 'inputs'], 'every sequence of up to a bounded number of raw files with every choice of continuous, short gap, long gap, missing number, and in-file gap, and every conversion block size',
  'The tests check one or two recorded gaps.',
  [core], [('chunks', 'core.py:_interp_time'), ('joining blocks', 'core.py:_merge_gaps'), ('block loop', 'core.py:convert')],
  ['convert output files', 'read_gem data'])
p('C06', 'A bad raw file costs only its own data',
  "If some raw files of a Gem are empty, header-only, truncated, binary garbage, lack GPS, contain a time discontinuity, or belong to another Gem, all the other files are converted exactly as if the bad ones were absent, wherever they stand in the sequence. Each unreadable file that is recognizably this Gem's is reported (printed or returned), and conversion fails with the documented missing-file or corrupt-file error if and only if no readable file remains.",
  ['fault_sequences', 'histories'], 'every sequence of up to a bounded number of files, each good or bad in one of the listed ways',
  'The tests convert a few directories with one kind of bad file in one place.',
  [core, 'gemlog/exceptions.py'], [('per-file errors', 'core.py:_read_several'), ('dropping unusable files', 'core.py:read_gem, _find_nonmissing_files'), ('block errors', 'core.py:convert')],
  ['convert outputs, return value and exceptions'])
p('C07', 'Output files partition the data at the requested file length',
  "Whatever the output file length, format and block size, the converted files together contain exactly the same samples: each file's data lie within one UTC-aligned period of the requested length, no sample appears in two files, and each file is named by the time of its first sample and the network, station, location and channel codes it carries. Codes given by the user appear in every file, and the station code defaults to the serial number.",
  ['configurations', 'inputs'], 'every combination of file length, output format, block size, start phase relative to the period, and gap position in a bounded grid',
  'The tests use two file lengths on one data set.',
  [core], [('cutting', 'core.py:_write_hourlong_mseed, _trunc_UTCDateTime'), ('names', 'core.py:_make_filename_converted'), ('wav', 'core.py:write_wav')],
  ['converted files: names, headers, samples'])
p('C08', 'Time and file-number selections are honoured exactly',
  "A conversion limited to a start and/or end time yields exactly the samples the unlimited conversion yields within those limits, and one limited to given file numbers yields exactly what converting a folder holding only those files yields, however the limits fall relative to files, gaps and output files. Without a start limit conversion starts at the first whole second of the data. Limits may be given as time objects or as numbers. A requested time adjustment shifts the times of all output samples by exactly that amount (before limits are applied) and changes nothing else.",
  ['inputs', 'configurations'], 'every pair of limits from a set of points at, between and outside all file, gap and output-file boundaries; every subset of file numbers; time adjustments of either sign',
  'The tests never pass a start or end time.',
  [core], [('limits', 'core.py:convert (t1, t2, hour_to_write)'), ('numbers', 'core.py:convert, _find_nonmissing_files')],
  ['converted files'])
p('C09', 'GPS and metadata logs are complete, in order, and never overwritten',
  "A conversion writes one new GPS log and one new metadata log holding every accepted GPS fix (from one second before the start of the converted data on) and every metadata record of the readable files exactly once, in time order, with the values and true times recorded. Logs of earlier conversions are never changed: each conversion takes the first unused number for its Gem, independently of other Gems. A log whose file name the caller gives holds the rows of the latest conversion only, and no other log is written in its place.",
  ['histories', 'inputs'], 'every sequence of up to a bounded number of conversions of differing Gems and folders, with every pre-existing set of log numbers, over recordings spanning several blocks and bad files',
  'The tests look at the data only, not at logs over several conversions.',
  [core], [('log writing', 'core.py:convert'), ('numbering', 'core.py:_make_filename'), ('times', 'core.py:_assign_times, _reformat_GPS')],
  ['gps and metadata folders'])
p('C10', 'A conversion interrupted anywhere is completed by running it again',
  "If a conversion is stopped at any point, with any output file cut short, or an output write fails, then the raw files are untouched, and running the conversion again yields exactly the converted files an uninterrupted conversion yields, and complete logs under new numbers. Logs of earlier conversions stay intact.",
  ['crash_points', 'fault_sequences'], 'every file-system operation of the conversion as crash point, with the operation not done, done in part, and done',
  'No test interrupts a conversion.',
  [core, 'gemlog/gemconvert.py'], [('output writes', 'core.py:convert, _write_hourlong_mseed'), ('numbering', 'core.py:_make_filename')],
  ['all folders after crash and rerun'])
p('C11', 'Converting several Gems in parallel equals converting them one at a time',
  "Converting a folder holding several Gems gives for each Gem exactly the files that converting that Gem alone gives, in any order of Gems, for any number of parallel processes and any interleaving of their file operations, including the creation of output folders. No Gem's data or failure affects another Gem.",
  ['schedules', 'configurations'], 'every interleaving of the file-system operations of two conversions up to a bounded number of preemptions, every subset of failing Gems',
  'The tests never convert two Gems at once.',
  [core, 'gemlog/gemconvert.py'], [('process pool', 'gemconvert.py:main, convert_single_SN'), ('folders and numbering', 'core.py:convert, _make_filename')],
  ['all output folders'])
p('C12', "Count-to-pressure and count-to-volt factors match the Gem's hardware and gain",
  "The factors reported and attached for a Gem are those of the hardware version of its serial number (per the published table of serial ranges) and double for low gain, for every serial number and both gain settings, whichever units are requested; a user-supplied factor wins. Gain and other settings are taken from the configuration line wherever it stands in the header, with the documented default when it is absent.",
  ['inputs', 'configurations'], 'all serial numbers 003-999, both gains, all unit names, every position of the configuration line',
  'The tests look at no factor.',
  [core], [('table', 'core.py:get_gem_specs'), ('gain', 'core.py:get_bitweight_info, _read_config'), ('attach', 'core.py:convert, _write_hourlong_mseed')],
  ['get_gem_specs', 'read_gem header', 'SAC output scale'])
p('C13', 'Merging raw files for missing GPS preserves every line and value',
  "Merging a folder of raw files attaches files without GPS to a preceding file with GPS (files before the first with GPS are left out) so that every merged file contains GPS fixes, every GPS and metadata line of the merged inputs appears exactly once and in order, and for an uninterrupted recording the pressure values read from a merged file are exactly the concatenation of the values of its inputs. Output files are numbered consecutively from zero, and inputs are not modified. With cat_all, all the files, with or without GPS, are merged in this way into a single file.",
  ['histories', 'inputs'], 'every sequence of up to a bounded number of files with and without GPS, in each format, with each first-line style',
  'The tests merge one recorded folder.',
  ['gemlog/gem_cat.py'], [('grouping', 'gem_cat.py:gem_cat'), ('append', 'gem_cat.py:AppendFile')],
  ['merged raw files and their conversion'])
p('C14', 'Renaming and day-merging converted files keeps every sample',
  "Renaming converted files gives each file the network, station and location codes assigned to its serial number, in its header and in its name, with unchanged samples, and never lets one file's codes or time reach another; files of unlisted Gems are skipped. Merging by day gives for every day and channel one file with exactly the samples of that day's files, no mix of channels or days, and gaps between them bridged; where files overlap, the samples of one of them are kept.",
  ['inputs', 'histories'], 'every set of up to a bounded number of files from a small alphabet of days, times and Gems, and every station-table form and name pattern',
  'The tests rename nothing but a pattern string.',
  ['gemlog/gem_network.py'], [('rename', 'gem_network.py:rename_files, _fix_file_name_digits'), ('merge', 'gem_network.py:merge_files_day')],
  ['output files'])
p('C15', 'GPS summaries locate each Gem from exactly its own, latest, in-window fixes',
  "The summary of GPS logs has one row per selected Gem, with the mean position, standard errors, first and last time and count of exactly those fixes of that Gem's latest log in each folder that lie in the time window, after gross outliers are removed. Included, excluded and absent Gems, other Gems' logs, older logs and unrelated files never influence a row, and station codes and elevation are those assigned to that serial number.",
  ['inputs', 'configurations'], 'every set of up to a bounded number of logs and folders, selections, windows and outlier positions from a small alphabet',
  'The tests summarize one or two recorded folders.',
  ['gemlog/gem_network.py'], [('latest log', 'gem_network.py:read_gps'), ('trimmed mean', 'gem_network.py:summarize_gps, _remove_outliers'), ('command', 'gem_network.py:summarize_gps_terminal')],
  ['summarize_gps, read_gps, gem_make_inventory outputs'])
p('C16', 'Cross-correlation analyses every selected window exactly once with the right lag',
  "Cross-correlating converted files processes exactly the selected channels and time range, covers it with windows of the requested length and overlap, none twice, and reports for every pair in each window the lag by which the first trace trails the second, to within a sample of the (possibly upsampled) data, with the amplitude of each channel, the coefficient of each pair and their mean; a window is marked consistent if and only if its lags around the loop of channels add up to at most one sample per pair. A channel that does not record throughout a window is left out of that window only. The result does not depend on how the data are split into files, nor on the order in which the files are given.",
  ['inputs', 'configurations'], 'every combination of window, overlap, upsampling, start and end, channel selection and file split in a bounded grid, with every lag in range',
  'The tests run one file set.',
  ['gemlog/xcorr.py'], [('days', 'xcorr.py:loop_through_days'), ('windows', 'xcorr.py:apply_function_windows'), ('lags', 'xcorr.py:xcorr_function'), ('selection', 'xcorr.py:_check_input_IDs')],
  ['xcorr_all, waveform_calc_lags output'])
p('C17', 'A plane wave is inverted to its back-azimuth and slowness',
  "For any array of at least three non-collinear sensors, the time lags of a plane wave invert to that wave's back-azimuth and horizontal slowness, independent of the order of stations, of the rows, and of other stations in the location table.",
  ['inputs'], 'a grid over all directions, several slownesses and geometries, and every permutation of stations',
  'The tests invert one data set and compare with nothing.',
  ['gemlog/xcorr.py'], [('inversion', 'xcorr.py:invert_for_slowness'), ('coordinates', 'xcorr.py:get_coordinates')],
  ['invert_for_slowness, waveform_calc_directions output'])
p('C18', 'Instrument response and noise models are consistent across options',
  "The instrument response has the documented passband gain (twice the counts per pascal at high gain as at low gain) and corner frequency, and removing it from a recording gives back the pressure; with a sensor or logger file chosen by the user it is the product of the two. Noise spectra and band noise are the tabulated models at every requested frequency, agree between power, amplitude and decibel forms, add up over adjacent bands, and have no value beyond the tabulated frequencies.",
  ['inputs', 'configurations'], 'all models, spectrum types, gains, and a grid of frequencies and bands',
  'The tests only check that calls do not fail or compare a few values.',
  ['gemlog/gem_network.py', 'gemlog/gemlog_aux.py'], [('response', 'gem_network.py:get_gem_response, deconvolve_gem_response'), ('noise', 'gemlog_aux.py:gem_noise, ims_noise, _noise_spectrum_helper')],
  ['return values'])
p('C19', 'Single-file conversion matches folder conversion, and forcing works without GPS',
  "Converting one file by itself gives the same samples as reading it in a folder, and without the force option a file with no or inadequate GPS produces an error and no output. With the force option any file with readable samples is converted with all its samples, timed by the GPS fixes it has, if any, else by the nominal sample rate.",
  ['inputs', 'configurations'], 'every combination of GPS amount (none, one, few, adequate), gap, format, force option, and output name',
  'The tests convert one recorded file.',
  [core, 'gemlog/gemconvert_single.py'], [('single', 'core.py:_convert_one_file'), ('command', 'gemconvert_single.py:main'), ('fallback timing', 'core.py:_calculate_drift')],
  ['output file'])
p('C20', 'Waveform database and channel statistics reflect the files',
  "The waveform database has one row per readable file with that file's station, location, start, end, extremes and high-passed amplitude, and unreadable files are skipped. Channel statistics give for each station the proportions of the window covered by data and by good data, and the amplitude quartiles, of exactly the hourly files of that station lying inside the window.",
  ['inputs', 'configurations'], 'every set of up to a bounded number of hourly files from a small alphabet of stations, hours, amplitudes and defects, and every window',
  'The tests do not call these functions.',
  ['gemlog/gemlog_aux.py'], [('database', 'gemlog_aux.py:make_db'), ('statistics', 'gemlog_aux.py:calc_channel_stats')],
  ['return values, saved table'])
p('C21', 'A raw file cut off at any byte yields only true data',
  "If logging stopped at an arbitrary byte of a raw file (power loss), reading that file either skips it (with a report if it is recognizably this Gem's) or yields exactly the samples, fixes and metadata of its complete lines. No value is invented, changed or taken from another line, and other files are unaffected.",
  ['crash_points'], 'every byte position of the tail of a raw file of each line style, and every byte of the header',
  'The tests contain no file cut in mid-line.',
  [core, 'gemlog/parsers.pyx'], [('incomplete lines', 'parsers.pyx:parse_gemfile'), ('headers', 'core.py:_read_SN, _read_config, _read_format_version')],
  ['convert outputs, read_gem'])
p('C22', 'Batch conversion converts exactly the selected Gems with their assigned codes',
  "The batch-conversion command converts exactly the Gems present in the folder, restricted to the included, minus the excluded, and, if a codes table is given, only those listed in it and with the codes assigned to that serial number. Output folder, format and file length follow the options, a test run writes no data, and one Gem's failure does not stop the others.",
  ['configurations', 'inputs'], 'every combination of included, excluded, listed and present Gems from a small alphabet, and of the other options',
  'The tests run the command on one folder with one option set.',
  ['gemlog/gemconvert.py', 'gemlog/gem_network.py'], [('options and association', 'gemconvert.py:main'), ('table', 'gem_network.py:_get_station_info')],
  ['converted files'])
p('C23', 'Station tables and inventories assign codes and coordinates by serial number',
  "A station table is understood with or without a header line, in any column order and capitalization, with blank fields kept as blanks and serial numbers and codes kept as text. The inventory built from it has exactly the listed channels that have coordinates, each under its network, station and location with its own position, elevation, serial number and padded time span, and station positions are the means of their channels.",
  ['inputs', 'configurations'], 'every table form, and every small set of networks, stations, locations and coordinate rows',
  'The tests build one or two inventories.',
  ['gemlog/gem_network.py'], [('table', 'gem_network.py:_get_station_info, _fix_station_info_keys'), ('inventory', 'gem_network.py:make_gem_inventory')],
  ['inventory', 'rename_files'])
p('C24', 'The huddle test flags exactly the Gems whose records break its limits',
  "The huddle test reports an error, a warning or okay for each Gem and each quantity (battery, temperature, auxiliary inputs, buffers, overruns, stack, GPS run time) exactly according to the documented limits, for that Gem only, whatever the other Gems' records. Comparing Gems, it reports exactly those that start more than 20 minutes after the first or stop more than 20 minutes before the last, and those whose temperature differs by more than 1.5 C from the median at that time. Excluded Gems are not examined.",
  ['inputs', 'configurations'], 'every quantity at, just inside and just outside each limit, for each Gem of a group, and every include/exclude choice',
  'The tests run the huddle test on one recorded data set and check nothing but completion.',
  ['gemlog/huddle_test.py'], [('limits', 'huddle_test.py:verify_huddle_test')],
  ['returned and reported results'])
p('C25', 'Calls leave their inputs alone and do not depend on earlier calls',
  "No function or command changes or deletes its input files (raw, converted, GPS, metadata files and tables), the objects passed to it (tables, lists, arrays; except the table of lags that the slowness inversion adds columns to), files written by earlier calls into other folders, the current folder or the environment; and every call in a process gives the same results and files as it does alone in a fresh process, whatever calls, successful or failing, were made before it, and also if the contents of the files it reads have been replaced in between.",
  ['histories'], 'every sequence of calls to a bounded length over all public functions and commands',
  'The tests check single calls, or calls in one order, and do not look at the inputs afterwards.',
  ['gemlog/core.py', 'gemlog/gem_network.py', 'gemlog/gemlog_aux.py', 'gemlog/xcorr.py', 'gemlog/huddle_test.py', 'gemlog/gem_cat.py', 'gemlog/gemconvert.py'],
  [('defaults and module state', 'all modules'), ('conversion', 'core.py:convert')],
  ['returned objects', 'all files'])
p('C26', 'Results depend on the data only, not on the surroundings of a call',
  "The results of all functions and commands are the same whatever the order in which the file system lists files, the hash seed, the time zone of the computer, and the spelling and name of input and output folders (relative, absolute, trailing slash, linked; names with spaces, brackets, dots, other alphabets); and functions and commands that read raw files, GPS or metadata logs ignore files in those folders that are not such files (notes, backups, hidden files, subfolders, similarly named files).",
  ['configurations', 'schedules'], 'every order of listings of small folders, and every combination of a call with one of a list of time zones, hash seeds, spellings of paths and sets of unrelated files',
  'The tests run on one computer in one time zone with plain folder names and whatever listing order its file system has.',
  ['gemlog/core.py', 'gemlog/gem_network.py', 'gemlog/gemlog_aux.py', 'gemlog/xcorr.py', 'gemlog/huddle_test.py', 'gemlog/gem_cat.py', 'gemlog/gemconvert.py'],
  [('finding files', 'core.py:convert, read_gem; gem_cat.py:gem_cat; gem_network.py:summarize_gps, merge_files_day; gemconvert.py:find_SN'), ('times', 'core.py:_make_gps_time')],
  ['returned objects', 'all files'])
p('C27', 'From raw files to the direction of a wave: the whole documented workflow is right end to end',
  "A wave that crosses an array of Gems is reported with its own back-azimuth and slowness by the documented workflow (conversion with a table of codes, summary of GPS logs and station inventory, lags by cross-correlation, directions; or the same with functions, with files renamed and merged afterwards, or with raw files merged first), in every window that all selected Gems recorded, and no direction is reported for a window that one of them did not record. Each Gem appears under its own codes at its own position in converted files and inventory. This holds for any assignment of codes (several locations at a station, several networks, blank networks, stations named like other Gems), any mixture of raw formats, any clock rates and restarts, any start time, gaps, missing, damaged or torn raw files and wrong fixes of one Gem, other Gems in the folder or in the table (also far away), and repeated conversion.",
  ['configurations', 'histories'], 'every campaign and route that departs from a plain one in at most two (three) respects',
  'The tests run each command by itself, on recordings whose source is unknown, and do not check the result.',
  ['gemlog/gemconvert.py', 'gemlog/core.py', 'gemlog/gem_network.py', 'gemlog/xcorr.py', 'gemlog/gem_cat.py'],
  [('conversion', 'gemconvert.py:main; core.py:convert'), ('positions and inventory', 'gem_network.py:summarize_gps_terminal, make_gem_inventory'), ('lags and directions', 'xcorr.py:xcorr_all_terminal, calculate_direction_terminal')],
  ['files of each step', 'reported directions'])
p('C28', 'Gems recording side by side are compared in step',
  "The comparison of collocated Gems (check_lags, used by the huddle test with run_crosscorrelation_checks) gives, for every window of its grid (multiples of the window length after the full hour before the data, the first omitted) that all the stations of the table record completely, the true delay in samples between each station and the next, with a coefficient near one and a consistency of zero for waves common to all, whatever drift or hum lies outside the pass band; it reports no window that some station does not record completely. The outcome does not depend on how the data are divided into files, on the order of rows in the table, or on pauses elsewhere. The huddle test reports excessive lags if and only if fewer than 80% of the coherent windows have all lags zero. The interpolation used before plotting fills pauses shorter than its limit smoothly, leaves longer ones open, and never changes, loses or repeats a recorded sample.",
  ['inputs', 'histories'], 'every combination of 2 to 4 Gems, listed delays, places and kinds of pauses, file divisions, orders and window lengths',
  'The tests never run the cross-correlation part of the huddle test.',
  ['gemlog/gemlog_aux.py', 'gemlog/huddle_test.py'],
  [('comparison of windows', 'gemlog_aux.py:check_lags'), ('interpolation of short pauses', 'gemlog_aux.py:_interpolate_stream'), ('verdict', 'huddle_test.py:verify_huddle_test')],
  ['returned times, lags, coefficients', 'report of the huddle test'])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
