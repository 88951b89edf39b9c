#!/usr/bin/env python3
"""Writes known_findings.json: 'known' entries are defects left in place (with the signatures a check reports),
'fixed' entries record repairs; they suppress nothing."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [   # property, commit subject fragment, what failed
    ('C21', 'ignore incomplete raw-file lines', 'a D or G line cut short repeated values of the previous line of its kind'),
    ('C15', 'read_gps no longer relies', 'read_gps failed on every log with current pandas, so GPS could not be summarized'),
    ('C18', 'low-gain Gem response', 'the low-gain response was twice too large (datalogger gain of high gain)'),
    ('C20', 'calc_channel_stats accumulates', 'calc_channel_stats failed for any station'),
    ('C11', 'parallel conversions no longer abort', 'two conversions creating the same output folder: one aborted'),
    ('C08', 'convert never writes data after t2', 'data after t2 were written; t1/t2 as floats failed'),
    ('C05', 'do not interpolate through a gap right after', 'a gap right after the first or before the last sample was filled'),
    ('C05', 'a chunk too short for one output sample', 'reading aborted if a chunk held no output sample'),
    ('C03', 'output sample times are evenly spaced', 'sample times rounded inconsistently if a chunk began halfway between samples'),
    ('C05', 'keep the last sample of each chunk', 'last sample of each chunk lost, giving gaps at block boundaries'),
    ('C07', 'a data gap within a second', 'the data after a gap within a second overwrote the data before it'),
    ('C05', 'a gap of months between files', 'a long gap between files allocated memory for the gap and aborted'),
    ('C02', 'files of format 0.8 and 0.85 after a gap', 'files of format 0.8/0.85 were placed before the previous file after a gap'),
    ('C09', 'fixes before t1 are left out', 'fixes before t1 were in the GPS log from all blocks but the first'),
    ('C01', 'ignore incomplete metadata lines', 'an incomplete M line repeated values of the previous one'),
    ('C13', '_read_single accepts version 0.91', 'merging files of format 0.91 failed'),
    ('C08', 'convert with an end time no longer stops', 'data between the first block boundary and t2 were not converted'),
    ('C06', 'a leading raw file with a damaged format line', 'one such file aborted conversion of all the others'),
    ('C02', 'the fallback reader keeps fractional', 'the fallback reader truncated the fractional GPS milliseconds of format 0.91'),
    ('C03', 'two stray GPS fixes', 'two wrong fixes, one at the start of a file, aborted reading of the whole block'),
    ('C03', 'a wrong time in the first or last GPS fix', 'one wrong fix at either end of a file could make the file be rejected for inadequate GPS'),
    ('C12', 'read_gem honours its units', 'read_gem ignored its documented units, bitweight, bitweight_V and bitweight_Pa options'),
    ('C21', 'readers other than the fast one', 'formats 0.8/0.85 and the fallback reader used a torn last line: wrong sample value, or the file was rejected'),
    ('C21', 'a format line cut short', 'a first file cut within its format line (0.85C -> 0.85) made all other files unreadable'),
    ('C13', 'gem_cat keeps GPS and metadata', 'gem_cat dropped GPS and metadata lines before the first sample of an appended file'),
    ('C13', 'gem_cat does not join', 'gem_cat joined the first line of an appended file to a torn last line: sample lost, all later values wrong'),
    ('C23', 'station tables without a header line', 'a headerless table lost its first Gem, and codes like 01 or 1.0 were changed to numbers'),
    ('C23', 'blank elevations are allowed', 'a blank elevation in a station table made the summary fail'),
    ('C23', 'station tables can be given as a DataFrame', 'a table given as a DataFrame was rejected although documented'),
    ('C23', 'network and location columns are optional', 'tables without a network or location column failed, although documented as optional'),
    ('C23', 'make_gem_inventory skips a network', 'a network none of whose channels has coordinates aborted the inventory'),
    ('C23', "make_gem_inventory's default response", 'with the default response the inventory could not be written'),
    ('C15', 'GPS data outside of the requested time window', 'fixes outside the window decided which are outliers: after a long test elsewhere the deployment was dropped'),
    ('C15', 'read_gps reads GPS logs only', 'read_gps read metadata logs, backups or logs of a longer serial number instead of the latest GPS log'),
    ('C15', 'the summarize command compares whole', '-i/-x of the summary command matched substrings of serial numbers'),
    ('C15', 'GPS log file names are matched', 'GPS files named explicitly were matched by three digits'),
    ('C22', 'gemconvert with a codes file no longer aborts', 'any other file in the raw folder (e.g. .DS_Store) aborted gemconvert with a codes file'),
    ('C22', 'gemconvert accepts the long options', 'documented long options were rejected or silently ignored'),
    ('C19', 'a single file of format 0.8 or 0.85', 'files of format 0.8 and 0.85 could not be converted singly'),
    ('C19', 'gemconvert_single accepts the long', 'documented long options were rejected'),
    ('C18', 'ims_noise accepts the model name', 'the documented model name medium was rejected'),
    ('C18', 'band noise is integrated exactly', 'band noise was up to 0.7 % off (integration did not converge), so adjacent bands did not add up'),
    ('C20', 'calc_channel_stats includes a file that starts', 'a file starting exactly at the window start was left out: 23/24 for a complete day'),
    ('C20', 'calc_channel_stats counts the duration', 'each file counted as an hour of data, so that proportions over 1 or far too small ones resulted'),
    ('C20', 'calc_channel_stats returns an empty table', 'calc_channel_stats failed if no file lies in the window'),
    ('C14', 'rename_files never overwrites', 'two files whose new names coincide overwrote each other'),
    ('C14', 'merge_files_day does not mix', 'files of different networks or stations of one day were merged or overwritten'),
    ('C01', 'the rest of an overlong line', 'lines of 256 characters or more were split, and their rest read as data, GPS or metadata lines'),
    ('C03', 'rounding of the times is not taken', 'with well-fitting fixes, those with the largest rounding error were dropped one after the other, and the file rejected'),
    ('C16', 'data after midnight are not analysed twice', 'windows between midnight and the time of day of the start were analysed twice'),
    ('C16', 'data that fill exactly one window', 'data that fill one window were not analysed (division by zero)'),
    ('C16', 'xcorr_one_day honours upsample_ratio', 'xcorr_one_day ignored upsample_ratio if no overlap was given, and failed in the opposite case'),
    ('C16', 'channels with gaps, late starts', 'a gap in one channel suppressed the whole day for all channels; windows partly covered by a channel gave wrong lags; windows before the start of the first channel were not analysed'),
    ('C26', 'folder names with brackets', 'in folders with brackets in their names no files were found'),
    ('C26', 'gem_cat skips backups', 'gem_cat took backups and similarly named files for raw files, and failed or joined data twice'),
    ('C08', 'convert honours time_adjustment', 'the documented time_adjustment was ignored'),
    ('C17', 'slowness inversion does not depend', 'rows or stations of tables with a non-default index were mixed up, and a late channel could make the inversion fail'),
    ('C27', 'projects only the stations that have lags', 'stations of the location file that have no lags (e.g. another array far away) distorted the coordinates and so the directions'),
    ('C25', 'calc_channel_stats leaves the table', 'the times in the table given to calc_channel_stats were changed (text became time objects)'),
    ('C25', 'invert_for_slowness leaves the table', 'a column was added to the table of locations given to invert_for_slowness'),
    ('C28', 'check_lags does not import', 'check_lags, and with it the cross-correlation part of the huddle test, failed with the installed obspy (ImportError)'),
    ('C28', 'check_lags filters the data', 'the pass band was applied to an empty stream, so drift and hum decided the lags'),
    ('C28', 'check_lags compares each station with the next', 'windows across file boundaries or not recorded by a station compared pieces of one station with itself, or partial windows'),
    ('C28', 'interpolation accepts short data gaps close', 'two short pauses within 0.1 s made the huddle test fail (AttributeError)'),
    ('C16', 'windows are consistent if their lags', 'windows whose lags add up to up to n*n samples (n channels) were marked consistent'),
]
NOT = 'gemlog/huddle_test.py is left as it is (by its name it counts as a test file)'
KNOWN = [dict(property=p, status='known', id='K%d' % (k + 1), signatures=[sig], what=what, where='gemlog/huddle_test.py: ' + where, line='known: property=%s %s' % (p, what), why=NOT)
         for k, (p, sig, what, where) in enumerate([
    ('C24', 'returned None', 'verify_huddle_test returns None in place of its documented dict', 'end of verify_huddle_test'),
    ('C24', 'long options rejected', 'the documented long options --serialnumbers and --exclude_serialnumbers are rejected', 'getopt call of main'),
    ('C24', 'mean interval below 1 s', 'records whose mean interval is just below 1 s (.99998, .999): ZeroDivisionError', 'df_width = check_interval / int(min(all_interval))'),
    ('C24', 'mean interval below 10 s', 'records whose mean interval is just below 10 s (9.9998): KeyError of a fractional index', 'temp_interval = check_interval / int(interval_dict[SN])'),
    ('C24', '10-s records', 'with records every 10 s, messages about temperatures give wrong times', 'times_checked = np.arange(temp_start, temp_end, temp_interval)'),
    ('C24', 'Gem with a later start', 'temperatures of a Gem that starts later are compared with those of the other Gems at other times', 'group_temp_df.iloc[SN_index,df_index] = metadata.temp[index]'),
    ('C26', 'folder name with brackets', 'the huddle test fails in a folder whose name has brackets', "glob.glob(path + '/gps/*') and obspy.read(path + '/mseed/*..')"),
    ('C26', 'other file in the gps folder', 'the huddle test fails if its gps folder holds any other file', "glob.glob(path + '/gps/*')"),
])]
log = subprocess.run(['git', '-C', os.environ.get('GEMLOG_REPO', '/repo'), 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
try:
    exec(open(V + '/tools/findings_more.py').read())
except FileNotFoundError:
    pass
out = list(KNOWN)
for k, (p, frag, what) in enumerate(FIXED):
    c = [l.split()[0] for l in log if frag in l]
    assert len(c) == 1, (frag, c)
    out.append(dict(property=p, status='fixed', id='F%02d' % (k + 1), commit=c[0], signatures=[],
                    what=what, line='fixed: property=%s %s %s' % (p, c[0], what)))
json.dump(dict(findings=out), open(V + '/known_findings.json', 'w'), indent=1)
unlisted = [l for l in log if ' fix: ' in ' ' + l and not any(f[1] in l for f in FIXED)]
print(len(out), 'entries; unlisted fix commits:', unlisted)
