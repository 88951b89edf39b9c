From 70834914e1cea10c4c7e25b7a238dda8bcdb1acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:00 +0000
Subject: [PATCH 01/70] fix: ignore incomplete raw-file lines instead of
 reusing the previous line's values

---
 gemlog/parsers.pyx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gemlog/parsers.pyx b/gemlog/parsers.pyx
index 030908f..abf0b8e 100644
--- a/gemlog/parsers.pyx
+++ b/gemlog/parsers.pyx
@@ -3,7 +3,7 @@ Cython-based file parsers.
 """
 
 import numpy as np
-from libc.stdio cimport fopen, fclose, fgets, FILE, sscanf
+from libc.stdio cimport fopen, fclose, feof, fgets, FILE, sscanf
 
 
 def parse_gemfile(filename, n_row = 1560000):
@@ -76,6 +76,10 @@ def parse_gemfile(filename, n_row = 1560000):
         if read == NULL:
             # EOF
             break
+        if feof(cfile):
+            # The last line has no newline: logging stopped (e.g., power loss)
+            # before it was fully written, so its contents are unreliable.
+            break
 
         line_type = line[0]
         if (line_type >= 97) and (line_type <= 122): # ord('a'), ord('z')
@@ -93,6 +97,8 @@ def parse_gemfile(filename, n_row = 1560000):
             # DmsSamp,ADC
             # D7780,-1
             n_matched = sscanf(line + 1, "%lf,%d", &DmsSamp, &ADC)
+            if n_matched < 1: # incomplete line: don't repeat the previous sample
+                continue
             if n_matched == 1: # failed to read the 2-element format, try just 1 element
                 view[line_number, 0] = DmsSamp
                 DmsSamp = (prev_dD_millis + 10) % (2**13)
@@ -108,6 +114,8 @@ def parse_gemfile(filename, n_row = 1560000):
                                "%lf,%lf,%d,%d,%d,%d,%d,%lf,%lf,%lf",
                                &msPPS, &msLag, &yr, &mo, &day, &hr, &mn,
                                &sec, &lat, &lon)
+            if n_matched < 10: # incomplete line: don't mix in the previous fix's values
+                continue
             view[line_number, 0] = msLag
             view[line_number, 1] = yr
             view[line_number, 2] = mo
-- 
2.43.0


From e66547c546ea05b76686644af2cb4f500829429b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:47 +0000
Subject: [PATCH 02/70] fix: read_gps no longer relies on pandas' removed
 date_parser argument

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index b032b28..6bee446 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -426,7 +426,7 @@ def read_gps(gps_dir_pattern, SN):
                 fnList = []
         if len(fnList) > 0: # if any gps files matching SN are found, read and append the last
             gpsTable = pd.concat([gpsTable,
-                                  pd.read_csv(fnList[-1], parse_dates = ['t'], date_parser = obspy.UTCDateTime)], ignore_index=True)
+                                  pd.read_csv(fnList[-1], converters = {'t': obspy.UTCDateTime})], ignore_index=True)
     return gpsTable
 ReadLoggerGPS = read_gps # alias; v1.0.0
 
-- 
2.43.0


From 6d579c36a58c30e8274d2686c8fa3e477291d354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:34 +0000
Subject: [PATCH 03/70] fix: low-gain Gem response uses the 64000 counts/V
 logger response

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 6bee446..45163ba 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -116,7 +116,7 @@ def get_gem_response(gain = 'high', sensor_file = '', logger_file = ''):
         if gain.lower() == 'high':
             logger_file = 'RESP.XX.GM002..HHZ.GEMINFRAV1.0.100'
         elif gain.lower() == 'low':
-            logger_file = 'RESP.XX.GM002..HHZ.GEMINFRAV1.0.100'
+            logger_file = 'RESP.XX.GM001..HHZ.GEMINFRAV1.1.100'
         else:
             raise ValueError(f'invalid gain: {gain}')
     response = _read_response(os.path.join(response_path, 'datalogger', logger_file))
-- 
2.43.0


From 01f3ae04f6f3b5122e16407f83adb6396d9d91e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:34 +0000
Subject: [PATCH 04/70] fix: calc_channel_stats accumulates its table in a list
 instead of concatenating to one

---
 gemlog/gemlog_aux.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index bf94719..d36103f 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -196,8 +196,7 @@ def calc_channel_stats(DB, t1, t2):
         else:
             q1 = np.quantile(np.array(DB.amp_HP)[w], 0.25)
             q3 = np.quantile(np.array(DB.amp_HP)[w], 0.75)
-            out = pd.concat([out,
-                             pd.DataFrame([[sta, np.sum(np.array(DB.goodData)[w])/numHour, np.sum(np.array(DB.anyData)[w])/numHour, q1, q3]], columns = ['station', 'goodData', 'anyData', 'q1', 'q3'])])
+            out.append(pd.DataFrame([[sta, np.sum(np.array(DB.goodData)[w])/numHour, np.sum(np.array(DB.anyData)[w])/numHour, q1, q3]], columns = ['station', 'goodData', 'anyData', 'q1', 'q3']))
     out = pd.concat(out)
     return(out)
 
-- 
2.43.0


From c0f83bede99e80fa39a54a8c858f291fdfd58047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:37 +0000
Subject: [PATCH 05/70] fix: parallel conversions no longer abort when another
 process creates an output folder first

---
 gemlog/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index f1aad87..0386232 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -230,7 +230,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     if(len(gpsfile) == 0):
         if(not os.path.isdir(gpspath)):
             try:
-                os.makedirs(gpspath) # makedirs vs mkdir means if gpspath = dir1/dir2, and dir1 doesn't exist, that dir1 will be created and then dir1/dir2 will be created
+                os.makedirs(gpspath, exist_ok=True) # makedirs vs mkdir means if gpspath = dir1/dir2, and dir1 doesn't exist, that dir1 will be created and then dir1/dir2 will be created
             except:
                 print('Failed to make directory ' + gpspath)
                 sys.exit(2)
@@ -240,7 +240,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     if(len(metadatafile) == 0):
         if(not os.path.isdir(metadatapath)):
             try:
-                os.makedirs(metadatapath)
+                os.makedirs(metadatapath, exist_ok=True)
             except:
                 print('Failed to make directory ' + metadatapath)
                 sys.exit(2)
@@ -249,7 +249,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     ## if the converted directory does not exist, make it
     if(not os.path.isdir(convertedpath)):
         try:
-            os.makedirs(convertedpath)
+            os.makedirs(convertedpath, exist_ok=True)
         except:
             print('Failed to make directory ' + convertedpath)
             sys.exit(2)
-- 
2.43.0


From 1a1eb373582f4dc3c46f3970da9bc804d9c79cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 06/70] fix: convert never writes data after t2, and accepts t1
 and t2 given as floats

---
 gemlog/core.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 0386232..d67f693 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -217,9 +217,13 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         p = _merge_gaps(p)
         t1 = p[0].stats.starttime
         t1 = obspy.core.UTCDateTime(np.ceil(float(t1)))
+    else:
+        t1 = obspy.core.UTCDateTime(t1)
 
     if(np.isinf(float(t2))):
         t2 = obspy.core.UTCDateTime.strptime('9999-12-31 23:59:59', '%Y-%m-%d %H:%M:%S') # timekeeping apocalypse
+    else:
+        t2 = obspy.core.UTCDateTime(t2)
   
     wsn = 0
     while(len(SN) < 3): # take the first non-NA SN. This is important because there can be blank files in there.
@@ -265,6 +269,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         gps[wgps].to_csv(gpsfile, index=False)
 
     hour_to_write = max(t1, p[0].stats.starttime)
+    p.trim(endtime = t2) # never write data after t2. note that p can be empty from here on.
     
     ## read sets of (12*blockdays) files until all the files are converted
     while(True):
@@ -275,7 +280,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             break # already converted the requested data
         ## load new data if necessary
         tt2 = min(t2, _trunc_UTCDateTime(t1, 86400*blockdays) + 86400*blockdays)
-        while((p[-1].stats.endtime < tt2) & (n1 <= max(nums))):
+        while(((len(p) == 0) or (p[-1].stats.endtime < tt2)) and (n1 <= max(nums))):
             try:
                 L = read_gem(path = rawpath, nums = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))], SN = SN, network = network, station = station, location = location)
             except MissingRawFiles: # this can happen if a block of empty files is encountered
@@ -299,6 +304,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                     print('Problem with files, skipping: ' + L['header'].file[i])
 
             p = _merge_gaps(p + L['data'])
+            p.trim(endtime = t2)
                 
             ## start metadata and gps files
             metadata = L['metadata']   
@@ -310,10 +316,10 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                 gps.to_csv(gpsfile, index=False, mode='a', header=False)
             problems += L['problems']
         ## run the conversion and write new converted files
-        while((hour_to_write + file_length_sec) <= p[-1].stats.endtime):
+        while((len(p) > 0) and ((hour_to_write + file_length_sec) <= p[-1].stats.endtime)):
             #hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
             hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-            p.trim(hour_to_write, t2)
+            p.trim(hour_to_write)
             p = p.split()
             if(len(p) > 0):
                 hour_to_write = p[0].stats.starttime
@@ -321,12 +327,12 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
                 break
             
         ## update start time to convert
-        p.trim(hour_to_write, t2)
+        p.trim(hour_to_write)
         t1 = _trunc_UTCDateTime(tt2+(86400*blockdays) + 1, 86400*blockdays)
     ## done reading new files. write what's left and end.
-    while((hour_to_write <= p[-1].stats.endtime) & (len(p) > 0)):
+    while((len(p) > 0) and (hour_to_write <= p[-1].stats.endtime)):
         hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-        p.trim(hour_to_write, t2)
+        p.trim(hour_to_write)
         p = p.split()
         if(len(p) > 0):
             hour_to_write = p[0].stats.starttime
-- 
2.43.0


From 37fd3e0e32c8ab4a7f3c2136092d44e1e64f3625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 07/70] fix: do not interpolate through a gap right after the
 first or right before the last sample

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index d67f693..a954d50 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1291,7 +1291,7 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
     t1 = t_in[t_in >= (t1 - 0.01 - eps)][0]
     t2 = t_in[t_in <= (t2 + .01 + eps)][-1] # add a sample because t2 is 1 sample before the hour
     breaks_raw = np.where((np.diff(t_in) > max_step) | (np.diff(t_in) < min_step) )[0] # 2020-11-04: check for backwards steps too
-    breaks = breaks_raw[(t_in[breaks_raw] > t1) & (t_in[breaks_raw+1] < t2)]
+    breaks = breaks_raw[(t_in[breaks_raw] >= t1) & (t_in[breaks_raw+1] <= t2)]
     starts = np.hstack([t1, t_in[breaks+1]]) # start times of continuous chunks
     ends = np.hstack([t_in[breaks], t2]) # end times of continuous chunks
     w_same = (starts != ends)
-- 
2.43.0


From 9825e34d165ef01ff2dc9889af7ac11ac04c0857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 08/70] fix: a chunk too short for one output sample no longer
 aborts reading

---
 gemlog/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index a954d50..5fc5438 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1312,6 +1312,8 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
             ##                    ' and ' + str(obspy.UTCDateTime(ends[i]))))
         #t_interp = np.arange(starts[i], ends[i] + eps, 0.01) # this is a bug in np.arange--intervals can be inconsistent when delta is float. This can result in significant timing errors, especially for long traces.
         t_interp = np.round(starts[i] + np.arange(np.trunc((ends-starts)[i]/0.01)) * 0.01, 2)
+        if len(t_interp) == 0: # chunk is too short to include an output sample
+            continue
         p_interp = np.array(f(t_interp).round(), dtype = 'int32')
         tr = obspy.Trace(p_interp)
         tr.stats.starttime = t_interp[0]
-- 
2.43.0


From 61f4bbdb281e1da733d7fe57f917b292270fd5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 09/70] fix: output sample times are evenly spaced even if a
 chunk starts halfway between two output samples

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 5fc5438..00240fc 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1311,7 +1311,7 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
             ##    raise(Exception('_interp_time failed between ' +str(obspy.UTCDateTime(starts[i])) +\
             ##                    ' and ' + str(obspy.UTCDateTime(ends[i]))))
         #t_interp = np.arange(starts[i], ends[i] + eps, 0.01) # this is a bug in np.arange--intervals can be inconsistent when delta is float. This can result in significant timing errors, especially for long traces.
-        t_interp = np.round(starts[i] + np.arange(np.trunc((ends-starts)[i]/0.01)) * 0.01, 2)
+        t_interp = np.round(np.round(starts[i], 2) + np.arange(np.trunc((ends-starts)[i]/0.01)) * 0.01, 2) # round the start first: otherwise, if it's halfway between two output samples, samples are rounded inconsistently
         if len(t_interp) == 0: # chunk is too short to include an output sample
             continue
         p_interp = np.array(f(t_interp).round(), dtype = 'int32')
-- 
2.43.0


From d25fb5a3739d57ce0e8e701a9163ac575d895f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:36 +0000
Subject: [PATCH 10/70] fix: keep the last sample of each chunk, which also
 avoids spurious gaps between blocks

---
 gemlog/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 00240fc..af2b6b2 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1311,7 +1311,8 @@ def _interp_time(data, t1 = -np.inf, t2 = np.inf, min_step = 0, max_step = 0.025
             ##    raise(Exception('_interp_time failed between ' +str(obspy.UTCDateTime(starts[i])) +\
             ##                    ' and ' + str(obspy.UTCDateTime(ends[i]))))
         #t_interp = np.arange(starts[i], ends[i] + eps, 0.01) # this is a bug in np.arange--intervals can be inconsistent when delta is float. This can result in significant timing errors, especially for long traces.
-        t_interp = np.round(np.round(starts[i], 2) + np.arange(np.trunc((ends-starts)[i]/0.01)) * 0.01, 2) # round the start first: otherwise, if it's halfway between two output samples, samples are rounded inconsistently
+        start = np.round(starts[i], 2) # round this first: otherwise, if it's halfway between two output samples, samples are rounded inconsistently
+        t_interp = np.round(start + np.arange(np.floor((ends[i] - start)/0.01 + eps) + 1) * 0.01, 2) # include the last sample of the chunk
         if len(t_interp) == 0: # chunk is too short to include an output sample
             continue
         p_interp = np.array(f(t_interp).round(), dtype = 'int32')
-- 
2.43.0


From 694be50eb15e249413e35c084a27dd5810992f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:12 +0000
Subject: [PATCH 11/70] fix: a data gap within a second no longer makes an
 output file overwrite another

---
 gemlog/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index af2b6b2..8cdd216 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -349,9 +349,13 @@ def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, converte
     # Ideally, this would write mseed files with data gaps (masked arrays) if the stream here has
     # a gap. Unfortunately, those fail to write, so we have to write multiple files instead.
     pp = pp.split() 
+    filenames_used = []
     for tr in pp:
         tr.stats.calib = bitweight
         fn = _make_filename_converted(tr, output_format)
+        if fn in filenames_used: # data gap within a second; don't overwrite the data before the gap
+            fn = _make_filename_converted(tr, output_format, subsecond = True)
+        filenames_used.append(fn)
         if(len(tr) > 0):
             print(tr)
             if(output_format.lower() == 'wav'):
@@ -408,10 +412,11 @@ def _make_filename(dir, SN, dirtype):
     return fn
 
 
-def _make_filename_converted(pp, output_format):
+def _make_filename_converted(pp, output_format, subsecond = False):
     t0 = pp.stats.starttime
+    subsecond_str = f'_{round(t0.microsecond/1e4):02}' if subsecond else ''
     ## colons separating H:M:S would be more readable, but are not allowed in Windows filenames
-    return f'{t0.year:04}' + '-' +f'{t0.month:02}' + '-' +f'{t0.day:02}' + 'T' + f'{t0.hour:02}' + '_' + f'{t0.minute:02}' + '_' + f'{t0.second:02}' + '.' + pp.id + '.' + output_format.lower()
+    return f'{t0.year:04}' + '-' +f'{t0.month:02}' + '-' +f'{t0.day:02}' + 'T' + f'{t0.hour:02}' + '_' + f'{t0.minute:02}' + '_' + f'{t0.second:02}' + subsecond_str + '.' + pp.id + '.' + output_format.lower()
 
 
 ##############################################################
-- 
2.43.0


From 2d7ee35318e23ea70ae7e0c3f26b3d8c6b73c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:36 +0000
Subject: [PATCH 12/70] fix: a gap of months between files no longer exhausts
 memory

---
 gemlog/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 8cdd216..50de005 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -568,11 +568,12 @@ def _merge_gaps(st, max_gap=0.031):
         if(gap <= max_gap):
             st_tmp = obspy.Stream([tr1, tr2])
             st_tmp.merge(fill_value = 'interpolate')
+            output_st.pop() # tr1, now included in st_tmp
             output_st += st_tmp
         else:
             output_st += tr2
-    output_st.merge()
-    return output_st.split()
+    ## don't merge output_st as a whole: it would allocate memory for gaps, which can last for months
+    return output_st
 
 def _new_gem_var():
     tr = obspy.Trace()
-- 
2.43.0


From 8b01bb8ca8807576147539777db54aae586c9683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:36 +0000
Subject: [PATCH 13/70] fix: files of format 0.8 and 0.85 after a gap are
 placed after the previous file on the running clock

---
 gemlog/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 50de005..d5768f5 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1064,9 +1064,10 @@ def _read_several(fnList, version = 0.9, require_gps = True):
                 raise CorruptRawFile('Invalid raw file format version: ' + str(version))
             ## make sure the first millis is > startMillis
             if(L['data'][0,0] < startMillis):
-                L['metadata'].millis += 2**13
-                L['gps'].msPPS += 2**13
-                L['data'][:,0] += 2**13
+                rollover = 2**16 if str(version) in ['0.8', '0.85'] else 2**13
+                L['metadata'].millis += rollover
+                L['gps'].msPPS += rollover
+                L['data'][:,0] += rollover
             ## if the millis series is discontinuous, reject the file
             dMillis = np.diff(L['data'][:,0])
             if any(dMillis < 0) or any(dMillis > 1000):
-- 
2.43.0


From 695b47852744fcccd9630bd40f28e14534a18cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:35 +0000
Subject: [PATCH 14/70] fix: fixes before t1 are left out of the gps log in all
 blocks, not just the first

---
 gemlog/core.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index d5768f5..4a7fcef 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -264,7 +264,8 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     problems = L['problems']
     metadata.to_csv(metadatafile, index=False) ## change to metadata format. need to make ScanMnetadata compatible with both
 
-    wgps = (gps['t'] > (t1 - 1)) 
+    gps_start = t1 - 1 # t1 changes later
+    wgps = (gps['t'] > gps_start) 
     if(len(wgps) > 0):
         gps[wgps].to_csv(gpsfile, index=False)
 
@@ -310,10 +311,10 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             metadata = L['metadata']   
             gps = L['gps']
             metadata.to_csv(metadatafile, index=False, mode='a', header=False)
-            wgps = (gps['t'] > (t1 - 1)) 
+            wgps = (gps['t'] > gps_start) 
             ## update the gps file
             if(len(wgps) > 0):
-                gps.to_csv(gpsfile, index=False, mode='a', header=False)
+                gps[wgps].to_csv(gpsfile, index=False, mode='a', header=False)
             problems += L['problems']
         ## run the conversion and write new converted files
         while((len(p) > 0) and ((hour_to_write + file_length_sec) <= p[-1].stats.endtime)):
-- 
2.43.0


From 8e86ee36b62ef598caf5113265002c9ab13ef7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 15/70] fix: ignore incomplete metadata lines instead of
 reusing the previous line's values

---
 gemlog/parsers.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/parsers.pyx b/gemlog/parsers.pyx
index abf0b8e..1b2c076 100644
--- a/gemlog/parsers.pyx
+++ b/gemlog/parsers.pyx
@@ -136,6 +136,8 @@ def parse_gemfile(filename, n_row = 1560000):
                                &ms, &batt, &temp, &A2, &A3, &maxLag,
                                &minFree, &maxUsed, &maxOver, &gpsFlag,
                                &freeStack1, &freeStackIdle)
+            if n_matched < 12: # incomplete line: don't mix in the previous line's values
+                continue
             view[line_number, 0] = batt
             view[line_number, 1] = temp
             view[line_number, 2] = A2
-- 
2.43.0


From e4cba2d5dd9e8fadb3d4086e07601bca1673b99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 16/70] fix: _read_single accepts version 0.91, which gem_cat
 passes it

---
 gemlog/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 4a7fcef..8fab26f 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -855,7 +855,7 @@ def _read_single(filename, offset=0, require_gps = True, version = '0.9'):
 
 def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
     ## figure out what settings to used according to the raw file format version
-    if version in ['1.10', '0.9', '0.85C']:
+    if version in ['1.10', '0.91', '0.9', '0.85C']:
         rollover = 2**13
         M_cols = ['millis', 'batt', 'temp', 'A2', 'A3',
                   'maxWriteTime', 'minFifoFree', 'maxFifoUsed',
@@ -917,7 +917,7 @@ def _process_gemlog_data(df, offset=0, version = '0.9', require_gps = True):
 
 
     # process data (version-dependent)
-    if version in ['1.10', '0.9', '0.85C']: # don't integrate the data if version is 0.8, 0.85
+    if version in ['1.10', '0.91', '0.9', '0.85C']: # don't integrate the data if version is 0.8, 0.85
         D['ADC'] = D['ADC'].astype(float).cumsum()
 
     ## gps stuff
-- 
2.43.0


From 8fd4752d6ce0bf5d87764d1f2ade5e527924a708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 17/70] fix: convert with an end time no longer stops a whole
 block early

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 8fab26f..0c27717 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -329,7 +329,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
             
         ## update start time to convert
         p.trim(hour_to_write)
-        t1 = _trunc_UTCDateTime(tt2+(86400*blockdays) + 1, 86400*blockdays)
+        t1 = tt2 + 1 # in the next block, or after t2 if this was the last one
     ## done reading new files. write what's left and end.
     while((len(p) > 0) and (hour_to_write <= p[-1].stats.endtime)):
         hour_to_write = _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, output_format=output_format)
-- 
2.43.0


From c3ceb304dede751429f2be3b241d6f40ef2d3585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 18/70] fix: a leading raw file with a damaged format line no
 longer aborts reading the other files

---
 gemlog/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 0c27717..8320f05 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -508,13 +508,17 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
     ## at this point, if we don't have any files, raise a missing file exception
     if len(fnList) == 0:
         raise MissingRawFiles(str(path) + ': ' + str(nums))
+    unreadable = []
     while True:
         if len(fnList) == 0: # at this point, if we have no files, they're all corrupt. 
             raise CorruptRawFile(str(path) + ': ' + str(nums))
         try:
             version = _read_format_version(fnList[0])
             config = _read_config(fnList[0])
+            if version not in _time_corrections.keys():
+                raise CorruptRawFile(f'{fnList[0]}: Invalid or missing data format')
         except: # if we can't read the config for the first file here, drop it and try the next one
+            unreadable.append(f'Corrupt raw file {fnList[0]}: invalid or missing data format')
             fnList = fnList[1:] # 
         else:
             break
@@ -524,6 +528,7 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
         L = _read_several(fnList, version = version, require_gps = require_gps) # same function works for both
     else:
         raise Exception(fnList[0] + ': Invalid or missing data format')
+    L['problems'] = unreadable + L['problems']
 
     ## stop early if we don't have data to process
     if len(L['data']) == 0:
-- 
2.43.0


From b2dd9a9639d58d1f06b507672350abf416f20bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:14 +0000
Subject: [PATCH 19/70] fix: the fallback reader keeps fractional GPS
 milliseconds of format 0.91

---
 gemlog/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 8320f05..86cc2f7 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -796,7 +796,7 @@ def _read_with_pandas(filename, require_gps = True):
     df = df.loc[df.loc[:,'linetype'].isin(['D', 'M', 'G']), :]
     ## most of the runtime is before here
     # unroll the ms rollover sawtooth
-    df['millis-sawtooth'] = np.where(df['linetype'] == 'D',df[0].str[1:],df[1]).astype(int)
+    df['millis-sawtooth'] = np.where(df['linetype'] == 'D',df[0].str[1:],df[1]).astype(float)
     return df
 
 def _read_single(filename, offset=0, require_gps = True, version = '0.9'):
-- 
2.43.0


From 7d1bf40bdf02369d1d205a6e50e8c6bc0b7ccc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:05 +0000
Subject: [PATCH 20/70] fix: two stray GPS fixes no longer abort reading all
 files of a block

---
 gemlog/core.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 86cc2f7..ba01411 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1488,22 +1488,19 @@ def _find_breaks(L):
         overlaps = (mG[i] <= starts) & (mG[i+1] >= ends)
         if(np.any(overlaps)):
             w = np.argwhere(overlaps)
-            starts[w] = max(np.append(starts[w], mG[(i-1):(i+2)].max()))
-            ends[w] = max(np.append(ends[w], mG[(i-1):(i+2)].min()))
+            starts[w] = max(np.append(starts[w], mG[max(i-1, 0):(i+2)].max()))
+            ends[w] = max(np.append(ends[w], mG[max(i-1, 0):(i+2)].min()))
         else:
             wmin = np.argwhere(tG > tG[i])
-            ## If a file's very last gps fix triggered a break, an exception would be raised here.
-            ## This is unlikely and it's not clear now what the right thing to do is. So not implemented.
-            try:
-                starts = np.append(starts, mG[wmin][tG[wmin] == tG[wmin].min()][-1]) # [-1] just in case tG values are repeated
-            except:
-                _breakpoint()
             wmax = np.argwhere(tG < tG[i+1])
             ## It's possible for a gps break to occur so early that no good fixes occur before the
             ## break (e.g., leap second change). In that case, pre-break data are unrecoverable.
             if len(wmax) == 0: # empty wmax means no fixes before break
-                min_possible_start = tG[i+1]
-            else: # normal: add an end at this break
+                min_possible_start = mG[i+1]
+            ## If no fix is later than the break, it's not clear what the right thing to do is. So
+            ## not implemented. Always add a start and an end together so that they stay aligned.
+            elif len(wmin) > 0: # normal: add a start and an end at this break
+                starts = np.append(starts, mG[wmin][tG[wmin] == tG[wmin].min()][-1]) # [-1] just in case tG values are repeated
                 ends = np.append(ends, mG[wmax][tG[wmax] == tG[wmax].max()][-1]) # [-1] in case tG values are repeated
     starts = np.append(min_possible_start, starts)
     ends = np.append(ends, mD.max())
-- 
2.43.0


From 9be3fb6914b9f9a5e6e0f7534d01d4b28af46a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:10 +0000
Subject: [PATCH 21/70] fix: a wrong time in the first or last GPS fix no
 longer makes the file be rejected

---
 gemlog/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index ba01411..f88923f 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1127,7 +1127,8 @@ def _calculate_drift(L, fn, require_gps):
         sufficient_gps = False
     else:
         any_gps = True
-        sufficient_gps = (0.001024*(L['data'][-1,0] - L['data'][0,0]) / (L['gps'].t.iloc[-1] - L['gps'].t.iloc[0] + 1e-9)) < 2 # 1e-9 to prevent div by 0
+        # compare spans on the logger's own clock: a wrong GPS time in the first or last fix must not matter here
+        sufficient_gps = ((L['data'][-1,0] - L['data'][0,0]) / (L['gps'].msPPS.iloc[-1] - L['gps'].msPPS.iloc[0] + 1e-9)) < 2 # 1e-9 to prevent div by 0
 
     if require_gps and not any_gps:
         raise CorruptRawFileNoGPS('No GPS data in ' + fn + ', skipping this file')
-- 
2.43.0


From 41f0a0d457a7310497ca6a6f12fe52d5fed11093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:19 +0000
Subject: [PATCH 22/70] fix: read_gem honours its units and bitweight options

---
 gemlog/core.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index f88923f..d7f25de 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -550,7 +550,16 @@ def read_gem(path = 'raw', nums = np.arange(10000), SN = '', units = 'Pa', bitwe
         tr.stats.location = location # this may well be ''
         tr.stats.network = network # can be '' for now and set later
     ## add bitweight and config info to header
-    bitweight_info = get_bitweight_info(SN, config)
+    bitweight_info = get_bitweight_info(SN, config, units)
+    # values given by the user take precedence over the defaults for this Gem
+    if not np.isnan(bitweight_V):
+        bitweight_info['bitweight_V'] = bitweight_V
+    if not np.isnan(bitweight_Pa):
+        bitweight_info['bitweight_Pa'] = bitweight_Pa
+    if not np.isnan(bitweight):
+        bitweight_info['bitweight'] = bitweight
+    elif units.upper() in ['PA', 'V']:
+        bitweight_info['bitweight'] = bitweight_info['bitweight_' + units.capitalize()]
     header = L['header']
     for key in bitweight_info.keys():
         L['header'][key] = bitweight_info[key]
-- 
2.43.0


From 3dd186c1cba7b9f257c969edfb7c0f9aac3bdf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:03 +0000
Subject: [PATCH 23/70] fix: readers other than the fast one no longer use a
 last line cut short

---
 gemlog/core.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index d7f25de..71c6e0b 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -2,7 +2,7 @@ import pdb
 import warnings
 import numpy as np
 from numpy import nan, inf
-import os, glob, csv, time, scipy
+import os, glob, csv, io, time, scipy
 import pandas as pd
 with warnings.catch_warnings():
     warnings.simplefilter("ignore")
@@ -744,16 +744,23 @@ def _read_with_cython(filename, require_gps = True):
     return df
 
 
+def _complete_lines(filename):
+    # If the last line has no newline, logging stopped (e.g., power loss) before it was fully
+    # written, so its contents are unreliable.
+    with open(filename, 'rb') as file:
+        contents = file.read()
+    return io.BytesIO(contents[:(contents.rfind(b'\n') + 1)])
+
 def _read_0_8_pd(filename, require_gps = True):
     ## This procedure is different enough from read_with_pandas that they are not interchangeable.
     # skiprows is important so that the header doesn't force dtype=='object'
     # the C engine for pd.read_csv is fast but crashes sometimes. Use the python engine as a backup.
     try:
         # read 15 columns for 'R,2' lines
-        df = pd.read_csv(filename, names=range(15), low_memory=False, skiprows=6, encoding_errors='ignore')
+        df = pd.read_csv(_complete_lines(filename), names=range(15), low_memory=False, skiprows=6, encoding_errors='ignore')
     except Exception:
         try:
-            df = pd.read_csv(filename, names=range(15), engine='python', skiprows=6,
+            df = pd.read_csv(_complete_lines(filename), names=range(15), engine='python', skiprows=6,
                              on_bad_lines = 'skip', # replacement for error/warn_bad_lines, available since pandas 1.3.0
                              encoding_errors='ignore')
         except Exception as exception_message:
@@ -784,11 +791,11 @@ def _read_with_pandas(filename, require_gps = True):
     # skiprows is important so that the header doesn't force dtype=='object'
     # the C engine for pd.read_csv is fast but crashes sometimes. Use the python engine as a backup.
     try:
-        df = pd.read_csv(filename, names=range(13), low_memory=False, skiprows=6,
+        df = pd.read_csv(_complete_lines(filename), names=range(13), low_memory=False, skiprows=6,
                          encoding_errors='ignore') # consider lineterminator = '\n' for encoding problems
     except Exception:
         try:
-            df = pd.read_csv(filename, names=range(13), engine='python', skiprows=6,
+            df = pd.read_csv(_complete_lines(filename), names=range(13), engine='python', skiprows=6,
                              on_bad_lines = 'skip', encoding_errors='ignore')
         except:
             raise CorruptRawFile(filename)
-- 
2.43.0


From db6458b63dececd416c7d5f8a994bb2144bc46a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:03 +0000
Subject: [PATCH 24/70] fix: a format line cut short no longer decides how the
 other files are read

---
 gemlog/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gemlog/core.py b/gemlog/core.py
index 71c6e0b..14dfb32 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -621,6 +621,9 @@ def _read_format_version(fn):
     #0.85: ser. num. as extension, added A2 and A3 to metadata, otherwise same as 0.8
     #0.8: file extension .TXT, 1-hour files
     #"""
+    with open(fn, 'rb') as file:
+        if not file.readline(1000).endswith(b'\n'):
+            raise CorruptRawFile(fn + ': incomplete header')
     versionLine = pd.read_csv(fn, delimiter = ',', nrows=1, dtype = 'str', names=['s'], encoding_errors='ignore', on_bad_lines = 'skip')
     version = versionLine['s'][0][7:]
     return version
-- 
2.43.0


From 95c7fd54ee52c9f24a0f14ce6e755b4a6275b27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:27 +0000
Subject: [PATCH 25/70] fix: gem_cat keeps GPS and metadata lines that precede
 the first data line

---
 gemlog/gem_cat.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index a6f96d5..97ed432 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -133,11 +133,12 @@ def AppendFile(infile, outfile, prev_infile):
         ## adjust the data line and append it to the outfile
         s = pd.read_csv(infile, delimiter = ',', nrows=1, skiprows=j, dtype = 'str', names=['c1','c2'])
         with open(outfile, 'a') as OF, open(infile, 'r') as IF:
-            OF.write(s['c1'].iloc[0] + ',' + str(int(s['c2'].iloc[0])-p_start) + '\n')
             ## append the rest of the file
             #system(paste0('tail -n +', j+2, ' ', infile, ' >> ', outfile))
             for k, line in enumerate(IF):
-                if k >= (j+1):
+                if k == j:
+                    OF.write(s['c1'].iloc[0] + ',' + str(int(s['c2'].iloc[0])-p_start) + '\n')
+                elif k > j or line[:2] in ['G,', 'M,']: # these may come before the first data line
                     OF.write(line)
                 #if k > 10: # testing only
                 #    break
@@ -156,7 +157,7 @@ def AppendFile(infile, outfile, prev_infile):
         with open(outfile, 'a') as OF, open(infile, 'r') as IF:
             #system(paste0('tail -n +', j+2, ' ', infile, ' >> ', outfile))
             for k, line in enumerate(IF):
-                if k >= j:
+                if k >= j or line[:2] in ['G,', 'M,']: # these may come before the first data line
                     OF.write(line)
 
     return
-- 
2.43.0


From 55e0bd00061eb921fd35c5a154d72244287b3d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:27 +0000
Subject: [PATCH 26/70] fix: gem_cat does not join the first appended line to a
 line cut short

---
 gemlog/gem_cat.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index 97ed432..572bc59 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -115,6 +115,11 @@ def AppendFile(infile, outfile, prev_infile):
     if not os.path.exists(outpath):
         os.makedirs(outpath)
         
+    ## If logging stopped in the middle of a line (e.g., power loss), drop that line from the outfile.
+    ## Otherwise, the first line appended would be joined to it.
+    with open(outfile, 'rb+') as OF:
+        OF.truncate(OF.read().rfind(b'\n') + 1)
+
     format = _read_format_version(infile)
     if format in ['0.85C', '0.9', '0.91', '1.10']:
         ## find the pressure at the end of the previous file
-- 
2.43.0


From 3a2c9bfe4e0bf63de68b7f3a5bac68c8dc9f73df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:45 +0000
Subject: [PATCH 27/70] fix: station tables without a header line are read, and
 their serial numbers and codes kept as text

---
 gemlog/gem_network.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 45163ba..df8803c 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -154,18 +154,20 @@ def _get_station_info(station_info):
     required_keys = ['sn', 'network', 'station', 'location']
     if type(station_info) == str:
         print('Reading file %s' % station_info)
-        header_df = pd.read_csv(station_info, nrows = 1, header = None, index_col = False)
+        # read everything as text so that serial numbers and codes (e.g., '007', '01', 'NA') are kept as written
+        read_kwargs = {'dtype':'str', 'keep_default_na':False, 'index_col':False}
+        header_df = pd.read_csv(station_info, nrows = 1, header = None, **read_kwargs)
         header_list = [header_df[key][0] for key in header_df.keys()]
         if all([i.lower() in (required_keys + ['elevation']) for i in header_list]): # file has header line
             print('File has valid header, using that for column names')
-            station_info = pd.read_csv(station_info, dtype = {key:'str' for key in header_list}, keep_default_na = False)
+            station_info = pd.read_csv(station_info, **read_kwargs)
         else:
             if len(header_list) == 4:
                 print('File does not have a valid header, using default columns [SN, network, station, location]')
-                station_info = pd.read_csv(station_info, names = required_keys, dtype = {key:'str' for key in header_list}, keep_default_na = False, index_col = False)
+                station_info = pd.read_csv(station_info, names = required_keys, **read_kwargs)
             elif len(header_list) == 5:
                 print('File does not have a valid header, using default columns [SN, network, station, location, elevation]')
-                station_info = pd.read_csv(station_info, names = required_keys + ['elevation'], dtype = {key:'str' for key in header_list}, keep_default_na = False, index_col = False)
+                station_info = pd.read_csv(station_info, names = required_keys + ['elevation'], **read_kwargs)
             else:
                 raise Exception('invalid station_info file; must have 4 or 5 columns or valid header')
         ## if any keys are capitalized or abbreviated wrong, correct them
-- 
2.43.0


From 5da6e40c6b6d8d52fb4f610e2d1456820543b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:45 +0000
Subject: [PATCH 28/70] fix: blank elevations are allowed in a station table

---
 gemlog/gem_network.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index df8803c..b335988 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -183,8 +183,7 @@ def _get_station_info(station_info):
     if 'elevation' not in station_info.keys():
         station_info['elevation'] = np.zeros(station_info.shape[0]) - 9999
         
-    if station_info['elevation'].dtype == 'str':
-        station_info['elevation'] = station_info['elevation'].astype('float')
+    station_info['elevation'] = station_info['elevation'].replace('', np.nan).astype('float') # may be text, and blank
         
     station_info.loc[station_info.location.isna(), 'location'] = ''
     station_info.loc[station_info.network.isna(), 'network'] = ''
-- 
2.43.0


From 97ff731e71d3d5062e3ac2a8c4ac539d92f3ccf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:45 +0000
Subject: [PATCH 29/70] fix: station tables can be given as a DataFrame

---
 gemlog/gem_network.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index b335988..f157ce0 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -175,8 +175,12 @@ def _get_station_info(station_info):
     elif (type(station_info) is not pd.DataFrame):
         raise Exception('invalid station_info input')
     else:
-        #station_info = _fix_station_info_keys(station_info)
-        if any([key not in station_info.keys() for key in required_keys]):
+        # work on a copy, with the standard capitalization of the column names and rows numbered from zero
+        station_info = station_info.reset_index(drop = True)
+        for standard_key in ['SN', 'network', 'station', 'location', 'elevation']:
+            if standard_key not in station_info.keys():
+                station_info = station_info.rename(columns = {key:standard_key for key in station_info.keys() if str(key).lower() == standard_key.lower()})
+        if any([key not in station_info.keys() for key in ['SN', 'network', 'station', 'location']]):
             raise Exception('invalid station_info input')
     # if location and network fields are blank in file, they are interpreted as nan and must be
     # turned back into blank
-- 
2.43.0


From f5a31d83fab5a3610450048c6668eebb41e3be7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 30/70] fix: rename_files never overwrites a file it has just
 written

---
 gemlog/gem_network.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index f157ce0..0bc9976 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -318,6 +318,7 @@ def rename_files(infile_pattern, station_info, output_dir, output_format = 'msee
     infiles = glob.glob(infile_pattern)
     infiles.sort()
     assert len(infiles) > 0, 'No input files provided'
+    output_files = []
     for i, infile in enumerate(infiles):
         st = obspy.read(infile)
         fileParts = infile.split('/')[-1].split('.')
@@ -343,6 +344,11 @@ def rename_files(infile_pattern, station_info, output_dir, output_format = 'msee
                            'loc':location, 'chan':'HDF', 'fmt':output_format}
         outfile_pattern = _fix_file_name_digits(outfile_pattern)
         output_file = outfile_pattern.format(**trace_info_dict)
+        if output_file in output_files: # data gap within a second; like convert, don't overwrite the data before the gap
+            output_file = outfile_pattern.replace('{sec:02d}', '{sec:02d}_%02d' % round(t1.microsecond/1e4)).format(**trace_info_dict)
+            if output_file in output_files:
+                raise Exception('outfile_pattern assigns the same name to several files: ' + output_file)
+        output_files.append(output_file)
         st.write(output_dir + '/' + output_file, format = output_format)
         print(str(i+1) + ' of ' + str(len(infiles)) + ': ' + infile + ', ' + output_file)
     return station_info
-- 
2.43.0


From abf5a555db8e3096a42e82596d3c2355b58ff85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 31/70] fix: merge_files_day does not mix files of different
 networks or stations

---
 gemlog/gem_network.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 0bc9976..e9e5564 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -361,14 +361,16 @@ def merge_files_day(infile_path, infile_pattern = '*', outfile_dir = 'merge_file
     ## find unique year, month, day lists for all files
     cuts = [infile.split('/')[-1].split('.')[0].split('T')[0] + ',' + '.'.join(infile.split('/')[-1].split('.')[1:])
             for infile in infiles]
-    cuts = _unique(cuts)
-    days = [cut.split(',')[0] for cut in cuts]
-    suffixes = [cut.split(',')[1] for cut in cuts]
     
     ## for each item, read all the files and 
-    for day, suffix in zip(days, suffixes):
+    for cut in _unique(cuts):
+        day, suffix = cut.split(',')
         print(day + ' ' + suffix)
-        x = obspy.read(infile_path + '/' + day + '*' + suffix)
+        ## read exactly this item's files; a glob pattern could include files of other networks, stations, etc.
+        x = obspy.Stream()
+        for infile, infile_cut in zip(infiles, cuts):
+            if infile_cut == cut:
+                x += obspy.read(infile)
         x.merge(fill_value = 'latest', method = 1)
         x.write(outfile_dir + '/' + day + 'T00_00_00.' + suffix)
     return
-- 
2.43.0


From 3e727d66d4c7ea9099456a90f0c12e8bd98083e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:18 +0000
Subject: [PATCH 32/70] fix: network and location columns are optional in a
 station table, as documented

---
 gemlog/gem_network.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index e9e5564..daf8fb1 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -182,6 +182,10 @@ def _get_station_info(station_info):
                 station_info = station_info.rename(columns = {key:standard_key for key in station_info.keys() if str(key).lower() == standard_key.lower()})
         if any([key not in station_info.keys() for key in ['SN', 'network', 'station', 'location']]):
             raise Exception('invalid station_info input')
+    # network and location columns are optional; blank if not provided
+    for key in ['network', 'location']:
+        if key not in station_info.keys():
+            station_info[key] = ''
     # if location and network fields are blank in file, they are interpreted as nan and must be
     # turned back into blank
     if 'elevation' not in station_info.keys():
-- 
2.43.0


From 3fbf9f7fb0c7f6cde7168af070d9cb9053bb3a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:18 +0000
Subject: [PATCH 33/70] fix: make_gem_inventory skips a network without located
 stations

---
 gemlog/gem_network.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index daf8fb1..242318d 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -281,6 +281,9 @@ def make_gem_inventory(station_info, coords, response = 'default'):
             station.start_date = np.min([channel.start_date for channel in station.channels])
             station.end_date = np.max([channel.end_date for channel in station.channels])
             network.stations.append(station)
+        ## move on to the next network if this one is empty
+        if len(network.stations) == 0:
+            continue
         ## append the current network to the inventory
         network.start_date = np.min([station.start_date for station in network.stations])
         network.end_date = np.max([station.end_date for station in network.stations])
-- 
2.43.0


From 133bc777d8b85b1308e316d05d35f1a261c37f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:56 +0000
Subject: [PATCH 34/70] fix: make_gem_inventory's default response is the
 Gem's, so the inventory can be written

---
 gemlog/gem_network.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 242318d..0c1a2e2 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -211,8 +211,8 @@ def make_gem_inventory(station_info, coords, response = 'default'):
     coords : pandas.DataFrame
         output of summarize_gps(), with 'elevation' column added
 
-    response: str
-        instrument response information (currently only 'default' is supported)
+    response: str or obspy.core.inventory.response.Response
+        instrument response information; 'default' is the Gem's response at high gain
 
     Returns
     -------
@@ -229,6 +229,9 @@ def make_gem_inventory(station_info, coords, response = 'default'):
     elif any([key not in coords.keys() for key in ['lat', 'lon', 'elevation']]):
         raise Exception("invalid coords; must contain keys 'lat', 'lon', 'elevation'")
     
+    if isinstance(response, str) and response == 'default':
+        response = get_gem_response()
+
     ## create the inventory and loop through all the networks, stations, and locations in it
     inventory = obspy.Inventory()
     all_networks = _unique(station_info['network'])
-- 
2.43.0


From 4e8dae5b35aeff5ec2d74fb29046b0c127737a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:26 +0000
Subject: [PATCH 35/70] fix: GPS data outside of the requested time window no
 longer decide which fixes are outliers

---
 gemlog/gem_network.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 0c1a2e2..35e77e1 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -542,8 +542,9 @@ def summarize_gps(gps_dir_pattern, station_info = None, output_file = None, t1 =
     seFun = lambda x: np.std(x)/np.sqrt(len(x))
     for i, SN in enumerate(snList):
         print(str(i+1) + ' of ' + str(len(snList)) + ': ' + SN)
-        gpsTable = _remove_outliers(read_gps(gps_dir_pattern, SN))
-        gpsTable = gpsTable.iloc[np.where((gpsTable.t >= t1) & (gpsTable.t <= t2))[0], :]
+        gpsTable = read_gps(gps_dir_pattern, SN)
+        ## find outliers among the fixes between t1 and t2 only, so that the excluded ones don't affect the result
+        gpsTable = _remove_outliers(gpsTable.iloc[np.where((gpsTable.t >= t1) & (gpsTable.t <= t2))[0], :])
         if gpsTable.shape[0] > 0:
             coords = pd.concat([
                 coords,
-- 
2.43.0


From 8ba342107e4a429616c6e8f997dfb01483a93bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:26 +0000
Subject: [PATCH 36/70] fix: read_gps reads GPS logs only, of exactly the given
 serial number

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 35e77e1..2a8f7cb 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -440,7 +440,7 @@ def read_gps(gps_dir_pattern, SN):
     gpsTable = pd.DataFrame(columns=['year', 'date', 'lat', 'lon', 't'])
     for gpsDir in gpsDirList:
         if os.path.isdir(gpsDir):
-            fnList = sorted(glob.glob(gpsDir + '/' + SN + '*'))
+            fnList = sorted(glob.glob(gpsDir + '/' + SN + 'gps*txt'))
         else:
             # in case the user provides the gps filename directly. requires that the filename start with SN.
             if pathlib.Path(gpsDir).name[:3] == SN:
-- 
2.43.0


From 38b63140552187561092ad1c7943aca7adb07c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:26 +0000
Subject: [PATCH 37/70] fix: the summarize command compares whole serial
 numbers with the included and excluded ones

---
 gemlog/gem_network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 2a8f7cb..4d56d41 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -659,7 +659,7 @@ def summarize_gps_terminal(input = sys.argv[1:]):
 
     coords = summarize_gps(gps_folder, station_info = station_info_file,
                            output_file = output_file + '.csv', t1 = args.t1, t2 = args.t2,
-                           include_SN = args.include_SNs, exclude_SN = args.exclude_SNs)
+                           include_SN = include_SNs, exclude_SN = exclude_SNs)
     response = gemlog.get_gem_response(gain = 'high')
     if 'station' not in coords.keys():
         coords['station'] = coords['SN']
-- 
2.43.0


From 07c11fcc0a82b8bf1f356af89ebd513809256a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:39 +0000
Subject: [PATCH 38/70] fix: GPS log file names are matched to whole serial
 numbers

---
 gemlog/gem_network.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 4d56d41..91d5376 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -443,7 +443,8 @@ def read_gps(gps_dir_pattern, SN):
             fnList = sorted(glob.glob(gpsDir + '/' + SN + 'gps*txt'))
         else:
             # in case the user provides the gps filename directly. requires that the filename start with SN.
-            if pathlib.Path(gpsDir).name[:3] == SN:
+            name = pathlib.Path(gpsDir).name
+            if name.startswith(SN) and not name[len(SN):].startswith(tuple('0123456789')):
                 fnList = [gpsDir]
             else:
                 fnList = []
-- 
2.43.0


From d2be2ca2f9bd52a2e9666b6d2ed18bc43202969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:42 +0000
Subject: [PATCH 39/70] fix: gemconvert with a codes file no longer aborts if
 the input folder holds other files

---
 gemlog/gemconvert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemconvert.py b/gemlog/gemconvert.py
index 32e9573..c2ad2c4 100755
--- a/gemlog/gemconvert.py
+++ b/gemlog/gemconvert.py
@@ -180,7 +180,7 @@ def main(argv = None):
         new_SN_list = []
         skip_SN = []
         for SN in SN_list:
-            if any(station_info.SN.astype(int) == int(SN)):
+            if SN.isdigit() and any(station_info.SN.astype(int) == int(SN)): # SN may come from an unrelated file
                 i = np.where(station_info.SN.astype(int) == int(SN))[0][0]
                 station_list.append(station_info.loc[i,'station'])
                 network_list.append(station_info.loc[i,'network'])
-- 
2.43.0


From 6110caee52bc759667e52687a4edfb1b934853b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:42 +0000
Subject: [PATCH 40/70] fix: gemconvert accepts the long options it documents

---
 gemlog/gemconvert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gemlog/gemconvert.py b/gemlog/gemconvert.py
index c2ad2c4..9c0e5f3 100755
--- a/gemlog/gemconvert.py
+++ b/gemlog/gemconvert.py
@@ -88,7 +88,8 @@ def main(argv = None):
 
     ## parse options selected by user
     try:
-        opts, args = getopt.getopt(argv,"hdti:s:x:c:o:f:l:p:",["inputdir=","serialnumber="])
+        opts, args = getopt.getopt(argv,"hdti:s:x:c:o:f:l:p:",["help", "debug", "test", "inputdir=", "serialnumbers=", "exclude_serialnumbers=",
+                                                                "codesfile=", "outputdir=", "format=", "length=", "parallel="])
     except getopt.GetoptError:
         print_call()
         sys.exit(2)
-- 
2.43.0


From e18db0fa76197fd4cc228fcd8f3c087a389b750b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:07 +0000
Subject: [PATCH 41/70] fix: a single file of format 0.8 or 0.85 can be
 converted

---
 gemlog/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 14dfb32..7dcd3a3 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1568,7 +1568,13 @@ def _convert_one_file(input_filename, output_filename = None, require_gps = True
     try:
         if not os.path.exists(input_filename):
             raise MissingRawFiles(f'File "{input_filename}" not found')
-        L = _read_several([input_filename], require_gps = require_gps)
+        try:
+            version = _read_format_version(input_filename)
+        except Exception:
+            version = None
+        if version not in ['0.8', '0.85']: # all other versions are read in the same way
+            version = 0.9
+        L = _read_several([input_filename], version = version, require_gps = require_gps)
         piecewiseTimeFit = L['header'].iloc[0,:]
     
         L['metadata']['t'] = _apply_fit(L['metadata']['millis'], piecewiseTimeFit)
-- 
2.43.0


From 9655d862a01283b8c06d3ddbed71f642a9782cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:07 +0000
Subject: [PATCH 42/70] fix: gemconvert_single accepts the long options it
 documents

---
 gemlog/gemconvert_single.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/gemconvert_single.py b/gemlog/gemconvert_single.py
index 009c01a..026c6e9 100755
--- a/gemlog/gemconvert_single.py
+++ b/gemlog/gemconvert_single.py
@@ -28,7 +28,7 @@ def main(argv = None):
     output_file = None
     force_conversion = False
     try:
-        opts, args = getopt.getopt(argv,"hfi:o:")
+        opts, args = getopt.getopt(argv,"hfi:o:", ["help", "input_file=", "output_file=", "force-conversion"])
     except getopt.GetoptError:
         print_call()
         sys.exit(2)
@@ -42,7 +42,7 @@ def main(argv = None):
             input_file = arg
         elif opt in ("-o", "--output_file"):
             output_file = arg
-        elif opt in ("-f", "--force_conversion"):
+        elif opt in ("-f", "--force-conversion"):
             force_conversion = True
 
     print(f'gemlog version {gemlog.__version__}')
-- 
2.43.0


From d6a030a00a7f3f3aaeb4f3e0d8f40368f64fb18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:49 +0000
Subject: [PATCH 43/70] fix: ims_noise accepts the model name 'medium', as
 documented

---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index d36103f..9580d8d 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -298,7 +298,7 @@ def ims_noise(model = 'low', freq = None, spectype = 'power', freq_min = None, f
     freq_in = noise_spec['f']
     if model.lower() in ['low', 'min']:
         power_in = 10**noise_spec['min']
-    elif model.lower() == 'med':
+    elif model.lower() in ['med', 'medium']:
         power_in = 10**noise_spec['med']
     elif model.lower() in ['high', 'hi', 'max']:
         power_in = 10**noise_spec['max']
-- 
2.43.0


From 0fac2af27988fec538ab0e252db085eaf8fa66cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:49 +0000
Subject: [PATCH 44/70] fix: band noise is integrated exactly, so that adjacent
 bands add up

---
 gemlog/gemlog_aux.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index 9580d8d..32f20a9 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -2,7 +2,6 @@ import numpy as np
 import pandas as pd
 import matplotlib.pyplot as plt
 import obspy, glob, gemlog, os
-import scipy.integrate
 import scipy.interpolate
 #from gemlog import *
 def plot_amp(DB):
@@ -315,7 +314,7 @@ def _noise_spectrum_helper(freq_in, power_in, freq_out, spectype, freq_min, freq
     spec_function = scipy.interpolate.CubicSpline(freq_in, power_in, extrapolate = False)
     power = spec_function(freq_out)
     if (freq_min is not None) and (freq_max is not None):
-        noise = scipy.integrate.quad(spec_function, freq_min, freq_max)[0] # 'quad' outputs are the estimated integral and error bar
+        noise = float(spec_function.integrate(freq_min, freq_max)) # exact; numerical integration does not converge over thousands of knots
     else:
         noise = np.nan
 
-- 
2.43.0


From e97ebe93ee6ff3e2e924b1e7dfb0b439d96287f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:49 +0000
Subject: [PATCH 45/70] fix: calc_channel_stats includes a file that starts at
 the start of the time window

---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index 32f20a9..41b7bd5 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -189,7 +189,7 @@ def calc_channel_stats(DB, t1, t2):
     DB.anyData = (DB.amp_HP > 0) 
     out = []
     for sta in DB.station.unique():
-        w = np.where((DB.station == sta) & (DB.t1 > t1) & (DB.t2 < t2))[0]
+        w = np.where((DB.station == sta) & (DB.t1 >= t1) & (DB.t2 <= t2))[0]
         if(len(w) == 0):
             continue
         else:
-- 
2.43.0


From b966fa91b2f0d66a6324721787f7327c9de54d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:49 +0000
Subject: [PATCH 46/70] fix: calc_channel_stats counts the duration of files,
 not files, as data available

---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index 41b7bd5..ce41baf 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -186,7 +186,7 @@ def calc_channel_stats(DB, t1, t2):
     DB.t1 = DB.t1.apply(T)
     DB.t2 = DB.t2.apply(T)
     DB.goodData = (DB.amp_HP > 0.5) & (DB.amp_HP < 2e4) & ((DB.t2 - DB.t1) > 3598) & ((DB.t2 - DB.t1) < 3602)
-    DB.anyData = (DB.amp_HP > 0) 
+    DB.anyData = (DB.amp_HP > 0) * (DB.t2 - DB.t1) / 3600.0 # hours of data; files may be shorter or longer than an hour
     out = []
     for sta in DB.station.unique():
         w = np.where((DB.station == sta) & (DB.t1 >= t1) & (DB.t2 <= t2))[0]
-- 
2.43.0


From 1c2d83c575d9ac081722aa6483ddf73075209d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:49 +0000
Subject: [PATCH 47/70] fix: calc_channel_stats returns an empty table if no
 file lies in the time window

---
 gemlog/gemlog_aux.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index ce41baf..6be6634 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -196,6 +196,8 @@ def calc_channel_stats(DB, t1, t2):
             q1 = np.quantile(np.array(DB.amp_HP)[w], 0.25)
             q3 = np.quantile(np.array(DB.amp_HP)[w], 0.75)
             out.append(pd.DataFrame([[sta, np.sum(np.array(DB.goodData)[w])/numHour, np.sum(np.array(DB.anyData)[w])/numHour, q1, q3]], columns = ['station', 'goodData', 'anyData', 'q1', 'q3']))
+    if len(out) == 0: # no files in the time window
+        return pd.DataFrame(columns = ['station', 'goodData', 'anyData', 'q1', 'q3'])
     out = pd.concat(out)
     return(out)
 
-- 
2.43.0


From 507fdb36b484a507236e3a8b79f38c3d2356e2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 48/70] fix: the rest of an overlong line is not read as
 another line

---
 gemlog/parsers.pyx | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/gemlog/parsers.pyx b/gemlog/parsers.pyx
index 1b2c076..f3bbfe4 100644
--- a/gemlog/parsers.pyx
+++ b/gemlog/parsers.pyx
@@ -3,7 +3,7 @@ Cython-based file parsers.
 """
 
 import numpy as np
-from libc.stdio cimport fopen, fclose, feof, fgets, FILE, sscanf
+from libc.stdio cimport fopen, fclose, feof, fgetc, fgets, FILE, sscanf, EOF
 
 
 def parse_gemfile(filename, n_row = 1560000):
@@ -37,6 +37,7 @@ def parse_gemfile(filename, n_row = 1560000):
 
     cdef char line[256]
     cdef char* read
+    cdef int next_char = 0
     cdef char line_type = 0
 
     cdef int n_matched = 0
@@ -72,10 +73,17 @@ def parse_gemfile(filename, n_row = 1560000):
     cdef Py_ssize_t line_number = 0
     # were this python 3.8 we could maybe use the walrus operator.  alas
     while True:
+        line[sizeof(line) - 2] = 0
         read = fgets(line, sizeof(line), cfile);
         if read == NULL:
             # EOF
             break
+        if line[sizeof(line) - 2] != 0 and line[sizeof(line) - 2] != 10: # ord('\n')
+            # The line is too long for the buffer: skip the rest of it, so that it isn't
+            # mistaken for another line.
+            while next_char != EOF and next_char != 10:
+                next_char = fgetc(cfile)
+            next_char = 0
         if feof(cfile):
             # The last line has no newline: logging stopped (e.g., power loss)
             # before it was fully written, so its contents are unreliable.
-- 
2.43.0


From 7dbe3069ab29d992273878a0548538f14c632198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 49/70] fix: rounding of the times is not taken for outliers
 when the GPS fixes fit well

---
 gemlog/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 7dcd3a3..167f0f8 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -1235,7 +1235,9 @@ def _robust_regress(x, y, degree = 3, MAD = 0.01, z = 4, recursive_depth = np.in
     resid = y - np.polynomial.Polynomial(reg)(x)
 
     ## If any are found to be outliers, remove them and recalculate recursively.
-    outliers = np.abs(resid) > (z*np.std(resid))
+    ## The recorded times are rounded (to 0.01 firmware ms at best), so smaller residuals than that
+    ## can't be outliers, even if the other residuals are smaller still.
+    outliers = np.abs(resid) > max(z*np.std(resid), 1.1e-5)
     if not any(outliers):
         outliers = np.abs(resid) > MAD
     if any(outliers) and (recursive_depth > 0):
-- 
2.43.0


From c786b6bc9004d3eef580351dcc79483d37f43fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 50/70] fix: the huddle test compares temperatures at the same
 times, at any metadata interval

---
 gemlog/huddle_test.py | 37 +++++++++----------------------------
 1 file changed, 9 insertions(+), 28 deletions(-)

diff --git a/gemlog/huddle_test.py b/gemlog/huddle_test.py
index 4253cd6..92fbb6a 100644
--- a/gemlog/huddle_test.py
+++ b/gemlog/huddle_test.py
@@ -642,44 +642,25 @@ def verify_huddle_test(path, SN_list = [], SN_to_exclude = [], individual_only =
     #### at every given time, temperature must agree within 2C for all loggers
     # interval of 061 and 065 is 10 seconds
     check_interval = 60 #seconds (time between checks)
-    all_interval= interval_dict.values()
-    df_width = check_interval / int(min(all_interval)) # use largest interval to calculate size
-   
-    
+
     # Determine start and stop times (Unix time)
-    mod = gps_start_min % df_width # modulus remainder to round start time to even minute
+    mod = gps_start_min % check_interval # modulus remainder to round start time to even minute
     temp_start = gps_start_min - mod # start time on an even minute
-    mod = gps_stop_max % df_width
+    mod = gps_stop_max % check_interval
     temp_end = gps_stop_max - mod - check_interval*10 # stop time on an even minute, ten minutes before end
+    times_checked = np.arange(temp_start, temp_end, check_interval) # same times for all Gems
     
     # Create dataframe to house temperatures to check
-    column_index = np.arange(0,int((temp_end-temp_start)/df_width),1) # theoretically, the number of values between start and end
+    column_index = np.arange(len(times_checked))
 
     # group_temp_df has the unexpected structure of SN as row and time as column
-    group_temp_df = pd.DataFrame(index = SN_list, columns = column_index ) # create dataframe to house temperatures at each minute for each SN
-    times_checked = np.zeros((1,max(column_index)))
+    group_temp_df = pd.DataFrame(np.nan, index = SN_list, columns = column_index) # create dataframe to house temperatures at each minute for each SN
     
     for SN_index, SN in enumerate(SN_list):
         metadata = metadata_dict[SN]
-        temp_interval = check_interval / int(interval_dict[SN])
-        argstart_list = [] # reset closest start list
-        argend_list = [] # reset closest end list
-        times = metadata.t # call all the time metadata
-        for time in times: # for each time value in time metadata
-            argstart_list.append(np.abs(temp_start - time)) # create a list of time values minus start time (find closest to start)
-            argend_list.append(np.abs(temp_end - time)) # create list of time values minus end time (find closest index to end)
-        
-        start_index = np.argmin(argstart_list) # find index for closest minute time for start
-        #format to not include nans from metadata
-        stop_index = np.argmin(argend_list) # find index for last time value
-        # too high
-
-        times_to_check_index = np.arange(start_index, stop_index, temp_interval) # create evenly spaced array of even minutes
-        times_checked = np.arange(temp_start, temp_end, temp_interval) # must create index based on mutally agreed start time
-        
-        for df_index, index in enumerate(times_to_check_index):
-            #TROUBLESHOOT: 061 and 065 saving into dataframe as nan after index 29
-            group_temp_df.iloc[SN_index,df_index] = metadata.temp[index] # save minute temperature reading into dataframe
+        # find the temperature sample closest to each time; nan if the Gem was not recording then
+        temp = metadata.dropna(subset = ['t']).drop_duplicates('t').set_index('t').temp.sort_index()
+        group_temp_df.loc[SN,:] = temp.reindex(times_checked, method = 'nearest', tolerance = check_interval/2).to_numpy()
     error = False
     for column in column_index: # column represents temperature data for each time that will be checked 
         # might be operating dataframe functions on entire set, not by columns...
-- 
2.43.0


From 25bad5969e23f0218fc5f0eff238e20413fa7a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 51/70] fix: verify_huddle_test returns its results, as
 documented

---
 gemlog/huddle_test.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gemlog/huddle_test.py b/gemlog/huddle_test.py
index 92fbb6a..0a344c7 100644
--- a/gemlog/huddle_test.py
+++ b/gemlog/huddle_test.py
@@ -831,7 +831,9 @@ def verify_huddle_test(path, SN_list = [], SN_to_exclude = [], individual_only =
         ## Close and name file    
         pdf.output(f"{report_path}/{filename}.pdf")
         print("A pdf report has been generated")
-    
+
+    return {'errors':errors + group_err, 'warnings':warnings + group_warn, 'stats':pstats_df, 'results':errors_df}
+
 ##############################################
 def print_call():
     print('gemconvert -i <inputdir> -s <serialnumbers> -x <exclude_serialnumbers>')
-- 
2.43.0


From 4ba0d762c77618489a472fcf01127749e59bc624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:56 +0000
Subject: [PATCH 52/70] fix: verify_huddle_test accepts the long options it
 documents

---
 gemlog/huddle_test.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gemlog/huddle_test.py b/gemlog/huddle_test.py
index 0a344c7..829a0d0 100644
--- a/gemlog/huddle_test.py
+++ b/gemlog/huddle_test.py
@@ -836,8 +836,8 @@ def verify_huddle_test(path, SN_list = [], SN_to_exclude = [], individual_only =
 
 ##############################################
 def print_call():
-    print('gemconvert -i <inputdir> -s <serialnumbers> -x <exclude_serialnumbers>')
-    print('-i --inputdir: default ./raw/')
+    print('verify_huddle_test -i <inputdir> -s <serialnumbers> -x <exclude_serialnumbers>')
+    print('-i --inputdir: default .')
     print('-s --serialnumbers: separate by commas (no spaces); default all')
     print('-x --exclude_serialnumbers: separate by commas (no spaces); default none')
     print('-h --help: print this message')
@@ -852,7 +852,7 @@ def main(argv = None):
     outputdir = None
     gemlog._debug = True
     try:
-        opts, args = getopt.getopt(argv,"hdti:s:x:o:f:l:p:",["inputdir=","serialnumber="])
+        opts, args = getopt.getopt(argv,"hdti:s:x:o:f:l:p:",["help","debug","inputdir=","serialnumbers=","exclude_serialnumbers="])
     except getopt.GetoptError:
         print_call()
         sys.exit(2)
-- 
2.43.0


From b373aadc8103100486a1b53afaea8e058348b9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 53/70] fix: data after midnight are not analysed twice when
 the first day is incomplete

---
 gemlog/xcorr.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 82bedc5..30b17f3 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -231,17 +231,8 @@ def loop_through_days(function, filenames, t1 = '1970-01-01', t2 = '9999-12-31',
             break
     day_starts = np.array(day_starts)
 
-    day_ends = [day_starts[0]+86400] # bug here; causes problems with part-day files. Only run full-day files.
-    #day_ends = [day_starts[0].replace(hour=0, minute=0, second=0, microsecond=0)] # this fix didn't work
-
-    while True:
-        new_time = (day_ends[-1]+86400+2).replace(hour=0, minute=0, second=0) # add 24 hours + 2 sec, then round down
-        if new_time < t2:
-            day_ends.append(new_time)
-        else:
-            day_ends.append(t2)
-            break
-    day_ends = np.array(day_ends)
+    ## each day ends where the next one starts; the last one ends at t2
+    day_ends = np.append(day_starts[1:], t2)
 
     files_read = []
     output_list = []
-- 
2.43.0


From ad5896f264e0793b1d1299bb766c1df7874b7c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 54/70] fix: data that fill exactly one window are analysed

---
 gemlog/xcorr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 30b17f3..baf0ca4 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -392,10 +392,12 @@ def apply_function_windows(st, f, win_length_sec, overlap = 0.5, args = {}):
     t1 = st[0].stats.starttime
     t2 = st[0].stats.endtime
     data_length_sec = t2 - t1
+    if data_length_sec + st[0].stats.delta < win_length_sec - eps:
+        raise Exception(f'Data length ({data_length_sec} sec) is less than the window length ({win_length_sec} sec)')
     num_windows = 1 + int(np.ceil((data_length_sec - win_length_sec) / (win_length_sec * (1 - overlap)) - eps))
     output_dict = {'t_mid':[]}
     for i in range(num_windows):
-        win_start = t1 + i*(data_length_sec - win_length_sec) / (num_windows-1)
+        win_start = t1 + i*(data_length_sec - win_length_sec) / max(num_windows-1, 1)
         st_tmp = st.slice(win_start-eps, win_start + win_length_sec - eps, nearest_sample = False)
         win_dict = f(st_tmp, args)
         #if i == 0:
-- 
2.43.0


From e74033d5e528536a355df6e5580474d25135957e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 55/70] fix: xcorr_one_day honours upsample_ratio without
 overlap, and the other way round

---
 gemlog/xcorr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index baf0ca4..4148f27 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -305,11 +305,11 @@ def xcorr_one_day(st, args = {}):
     fh = args.get('fh') if args.get('fh') is not None else 40
     win_length_sec = args.get('win_length_sec') if args.get('win_length_sec') is not None else 5
     overlap = args.get('overlap') if args.get('overlap') is not None else 0
-    upsample_ratio = args.get('upsample_ratio') if args.get('overlap') is not None else 1
+    upsample_ratio = args.get('upsample_ratio') if args.get('upsample_ratio') is not None else 1
     _validate_inputs(fl, fh, win_length_sec, overlap, upsample_ratio)
 
     if upsample_ratio != 1:
-        st = upsample_stream(st, args['upsample_ratio'])
+        st = upsample_stream(st, upsample_ratio)
         
     st.detrend('linear')
 
-- 
2.43.0


From 8f085ac6612807964beca7a439f3d43302a5178f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 56/70] fix: channels with gaps, late starts or early ends only
 leave out the windows they do not fill

---
 gemlog/xcorr.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 4148f27..7f48fc0 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -308,6 +308,10 @@ def xcorr_one_day(st, args = {}):
     upsample_ratio = args.get('upsample_ratio') if args.get('upsample_ratio') is not None else 1
     _validate_inputs(fl, fh, win_length_sec, overlap, upsample_ratio)
 
+    ## break channels at data gaps, and drop pieces too short to fill a window
+    st = obspy.Stream([tr for tr in st.split() if tr.stats.npts * tr.stats.delta >= win_length_sec - 1e-6])
+    st.sort()
+
     if upsample_ratio != 1:
         st = upsample_stream(st, upsample_ratio)
         
@@ -333,6 +337,8 @@ def xcorr_function(st, args):
         quiet = False
     #if not quiet:
     #    print(st)
+    if len(st) < 2:
+        return {} # nothing to compare
     dt = st[0].stats.delta
     st.detrend('linear')
     st.taper(0.05, 'hann') # Hann window, default taper for SAC
@@ -389,8 +395,8 @@ def apply_function_windows(st, f, win_length_sec, overlap = 0.5, args = {}):
 """
     # f must input a stream and return a dict
     eps = 1e-6
-    t1 = st[0].stats.starttime
-    t2 = st[0].stats.endtime
+    t1 = min([tr.stats.starttime for tr in st])
+    t2 = max([tr.stats.endtime for tr in st])
     data_length_sec = t2 - t1
     if data_length_sec + st[0].stats.delta < win_length_sec - eps:
         raise Exception(f'Data length ({data_length_sec} sec) is less than the window length ({win_length_sec} sec)')
@@ -399,6 +405,8 @@ def apply_function_windows(st, f, win_length_sec, overlap = 0.5, args = {}):
     for i in range(num_windows):
         win_start = t1 + i*(data_length_sec - win_length_sec) / max(num_windows-1, 1)
         st_tmp = st.slice(win_start-eps, win_start + win_length_sec - eps, nearest_sample = False)
+        ## exclude traces that don't fill the window: comparing them to traces that do is meaningless
+        st_tmp = obspy.Stream([tr for tr in st_tmp if tr.stats.npts >= int(win_length_sec/tr.stats.delta - eps)])
         win_dict = f(st_tmp, args)
         #if i == 0:
         #    output_dict = {key:[] for key in win_dict.keys()}
-- 
2.43.0


From 8bfd7bea1777bf0c8a1d87c5e26f8b4849055df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:57 +0000
Subject: [PATCH 57/70] fix: slowness inversion does not depend on the order of
 rows and stations

---
 gemlog/xcorr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 7f48fc0..68cce41 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -136,8 +136,9 @@ def invert_for_slowness(xcorr_df, locations):
     for key in xcorr_df.keys():
         if re.search('rms', key):
             data_short_IDs.append(key.split('_')[1])
+    data_short_IDs = sorted(data_short_IDs) # same order as in xcorr_function, even if the first windows lack some channels
             
-    locations['ID'] = [f'{locations.network[i]}.{locations.station[i]}.{locations.location[i]}' for i in range(locations.shape[0])]
+    locations['ID'] = [f'{net}.{sta}.{loc}' for (net, sta, loc) in zip(locations.network, locations.station, locations.location)]
     keep_indices = np.where(np.isin(locations.ID, data_short_IDs))[0]
     locations = locations.iloc[keep_indices, :]
     locations = locations.sort_values('ID', ignore_index = True)
@@ -167,7 +168,7 @@ def invert_for_slowness(xcorr_df, locations):
     backazimuth = np.zeros(n_windows)
     slowness = np.zeros(n_windows)
     for i in range(n_windows):
-        lags = np.array([xcorr_df[lag_key][i] for lag_key in lag_keys[:-1]])
+        lags = np.array([xcorr_df[lag_key].iloc[i] for lag_key in lag_keys[:-1]])
         slowness_vector = H @ lags
         backazimuth[i] = np.arctan2(-slowness_vector[0], -slowness_vector[1]) * 180/np.pi
         slowness[i] = np.sqrt(np.sum(slowness_vector**2))
-- 
2.43.0


From 80e5a460fa8478212846bb31048c847fde4b3df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:19 +0000
Subject: [PATCH 58/70] fix: convert honours time_adjustment

---
 gemlog/core.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 167f0f8..4f9a3fb 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -192,6 +192,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         n1 = n1 + (12*blockdays) # increment file number counter
         try:
             L = read_gem(path = rawpath, nums = nums_block, SN = SN, network = network, station = station, location = location)
+            _shift_stream(L['data'], time_adjustment)
         except MissingRawFiles: # if the block has no files, keep searching
             continue
         except CorruptRawFile: # if the block has no files, keep searching
@@ -264,7 +265,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     problems = L['problems']
     metadata.to_csv(metadatafile, index=False) ## change to metadata format. need to make ScanMnetadata compatible with both
 
-    gps_start = t1 - 1 # t1 changes later
+    gps_start = t1 - 1 - time_adjustment # t1 changes later. GPS times are not adjusted
     wgps = (gps['t'] > gps_start) 
     if(len(wgps) > 0):
         gps[wgps].to_csv(gpsfile, index=False)
@@ -284,6 +285,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
         while(((len(p) == 0) or (p[-1].stats.endtime < tt2)) and (n1 <= max(nums))):
             try:
                 L = read_gem(path = rawpath, nums = nums[(nums >= n1) & (nums < (n1 + (12*blockdays)))], SN = SN, network = network, station = station, location = location)
+                _shift_stream(L['data'], time_adjustment)
             except MissingRawFiles: # this can happen if a block of empty files is encountered
                 continue
             except CorruptRawFile: # if the block has no files, keep searching
@@ -342,6 +344,10 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     return problems
 ####################################
 
+def _shift_stream(st, time_adjustment):
+    for tr in st:
+        tr.stats.starttime += time_adjustment
+
 def _write_hourlong_mseed(p, hour_to_write, file_length_sec, bitweight, convertedpath, hour_end = np.nan, output_format='mseed'):
     eps = 1e-6
     if(np.isnan(hour_end)):
-- 
2.43.0


From faa7be0e95b2d1ea9def26459e393997cd719467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 59/70] fix: folder names with brackets are not taken as
 patterns

---
 gemlog/core.py        | 10 +++++-----
 gemlog/gem_cat.py     |  2 +-
 gemlog/gem_network.py | 12 ++++++------
 gemlog/gemlog_aux.py  |  4 ++--
 gemlog/huddle_test.py |  6 +++---
 5 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/gemlog/core.py b/gemlog/core.py
index 4f9a3fb..4a09de0 100644
--- a/gemlog/core.py
+++ b/gemlog/core.py
@@ -130,7 +130,7 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     ## make sure the raw directory exists and has real data
     if not os.path.isdir(rawpath):
         raise MissingRawFiles('Raw directory ' + rawpath + ' does not exist')
-    if len(glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.???')) == 0:
+    if len(glob.glob(glob.escape(rawpath) + '/FILE' +'[0-9]'*4 + '.???')) == 0:
         raise MissingRawFiles('No data files found in directory ' + rawpath)
     try:
         SN = str(SN)
@@ -148,10 +148,10 @@ def convert(rawpath = '.', convertedpath = 'converted', metadatapath = 'metadata
     
     ## find a list of possibly eligible raw files 
     if (type(SN) is not str) or (len(SN) != 3): # check that SN is appropriately formatted...this should always happen
-        fn = glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.???')
+        fn = glob.glob(glob.escape(rawpath) + '/FILE' +'[0-9]'*4 + '.???')
     else:
-        fn = glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.' + SN) + \
-            glob.glob(rawpath + '/FILE' +'[0-9]'*4 + '.TXT')
+        fn = glob.glob(glob.escape(rawpath) + '/FILE' +'[0-9]'*4 + '.' + SN) + \
+            glob.glob(glob.escape(rawpath) + '/FILE' +'[0-9]'*4 + '.TXT')
     
     ## filter out raw files whose serial numbers don't match SN
     fn_new = []
@@ -657,7 +657,7 @@ def _read_config(fn):
 def _find_nonmissing_files(path, SN, nums):
     ## list all Gem files in the path
     #fnList = glob.glob(path + '/' + 'FILE[0-9][0-9][0-9][0-9].[0-9][0-9][0-9]')
-    fnList = glob.glob(path + '/' + 'FILE[0-9][0-9][0-9][0-9].???')
+    fnList = glob.glob(glob.escape(path) + '/' + 'FILE[0-9][0-9][0-9][0-9].???')
     fnList.sort()
     fnList = np.array(fnList)
     
diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index 572bc59..0b2c79e 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -40,7 +40,7 @@ def gem_cat(input_dir, output_dir, ext = '', cat_all = False):
             raise Exception('Output path ' + output_dir + ' does not exist and cannot be created')
         else:
             print('Created output folder ' + output_dir)
-    gem_files = sorted(glob.glob(input_dir + '/' + 'FILE[0-9][0-9][0-9][0-9].' + ext + '*'))
+    gem_files = sorted(glob.glob(glob.escape(input_dir) + '/' + 'FILE[0-9][0-9][0-9][0-9].' + ext + '*'))
     
     has_gps = np.zeros(len(gem_files))
     counter = 0
diff --git a/gemlog/gem_network.py b/gemlog/gem_network.py
index 91d5376..83d0162 100644
--- a/gemlog/gem_network.py
+++ b/gemlog/gem_network.py
@@ -330,7 +330,7 @@ def rename_files(infile_pattern, station_info, output_dir, output_format = 'msee
     assert len(infiles) > 0, 'No input files provided'
     output_files = []
     for i, infile in enumerate(infiles):
-        st = obspy.read(infile)
+        st = obspy.read(glob.escape(infile))
         fileParts = infile.split('/')[-1].split('.')
         SN = fileParts[2]
         try:
@@ -366,7 +366,7 @@ def rename_files(infile_pattern, station_info, output_dir, output_format = 'msee
 def merge_files_day(infile_path, infile_pattern = '*', outfile_dir = 'merge_file_output'):
     if not os.path.isdir(outfile_dir):
         os.makedirs(outfile_dir) # makedirs vs mkdir means if gpspath = dir1/dir2, and dir1 doesn't exist, that dir1 will be created and then dir2
-    infiles = glob.glob(infile_path + '/' + infile_pattern)
+    infiles = glob.glob(glob.escape(infile_path) + '/' + infile_pattern)
     infiles.sort()
     ## find unique year, month, day lists for all files
     cuts = [infile.split('/')[-1].split('.')[0].split('T')[0] + ',' + '.'.join(infile.split('/')[-1].split('.')[1:])
@@ -380,7 +380,7 @@ def merge_files_day(infile_path, infile_pattern = '*', outfile_dir = 'merge_file
         x = obspy.Stream()
         for infile, infile_cut in zip(infiles, cuts):
             if infile_cut == cut:
-                x += obspy.read(infile)
+                x += obspy.read(glob.escape(infile))
         x.merge(fill_value = 'latest', method = 1)
         x.write(outfile_dir + '/' + day + 'T00_00_00.' + suffix)
     return
@@ -440,7 +440,7 @@ def read_gps(gps_dir_pattern, SN):
     gpsTable = pd.DataFrame(columns=['year', 'date', 'lat', 'lon', 't'])
     for gpsDir in gpsDirList:
         if os.path.isdir(gpsDir):
-            fnList = sorted(glob.glob(gpsDir + '/' + SN + 'gps*txt'))
+            fnList = sorted(glob.glob(glob.escape(gpsDir) + '/' + SN + 'gps*txt'))
         else:
             # in case the user provides the gps filename directly. requires that the filename start with SN.
             name = pathlib.Path(gpsDir).name
@@ -518,12 +518,12 @@ def summarize_gps(gps_dir_pattern, station_info = None, output_file = None, t1 =
         gpsDirList = sorted(glob.glob(gps_dir_pattern))
         gpsFileList = []
         for gpsDir in gpsDirList:
-            gpsFileList += glob.glob(gpsDir + '/' + '*gps*txt')
+            gpsFileList += glob.glob(glob.escape(gpsDir) + '/' + '*gps*txt')
     elif type(gps_dir_pattern) is list:
         gpsFileList = []
         for fn in gps_dir_pattern:
             if os.path.isdir(fn):
-                gpsFileList += glob.glob(fn + '/*gps*txt')
+                gpsFileList += glob.glob(glob.escape(fn) + '/*gps*txt')
             else:
                 gpsFileList.append(fn)
     else:
diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index 6be6634..cf63de2 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -121,13 +121,13 @@ def make_db(path, pattern = '*', savefile = None, verbose = False):
     """
     #path = 'mseed'
     #pattern = '*'
-    files = glob.glob(path + '/' + pattern)
+    files = glob.glob(glob.escape(path) + '/' + pattern)
     files.sort()
     DB = []
     count = 0
     for file in files:
         try:
-            tr = obspy.read(file)[0]
+            tr = obspy.read(glob.escape(file))[0]
         except:
             print('failed to read ' + file + ', skipping')
             continue
diff --git a/gemlog/huddle_test.py b/gemlog/huddle_test.py
index 829a0d0..2368820 100644
--- a/gemlog/huddle_test.py
+++ b/gemlog/huddle_test.py
@@ -61,7 +61,7 @@ def _min_starttime(SN_list, path):
     t1 = []
     t2 = []
     for SN in SN_list:
-        stream = obspy.read(path +'/mseed/*..' + SN + '..HDF.mseed')
+        stream = obspy.read(glob.escape(path) +'/mseed/*..' + SN + '..HDF.mseed')
         trace = stream[0]
         t1.append(trace.starttime)
         t2.append(trace.endtime)
@@ -226,7 +226,7 @@ def verify_huddle_test(path, SN_list = [], SN_to_exclude = [], individual_only =
 
     ## identify the list of serial numbers to test, including user input to include/exclude
     if len(SN_list) == 0:
-        SN_list = unique([filename[-14:-11] for filename in glob.glob(path + '/gps/*')])
+        SN_list = unique([filename[-14:-11] for filename in glob.glob(glob.escape(path) + '/gps/*')])
     SN_list = [SN for SN in SN_list if SN not in SN_to_exclude]
     print('Identified serial numbers ' + str(SN_list))
    
@@ -536,7 +536,7 @@ def verify_huddle_test(path, SN_list = [], SN_to_exclude = [], individual_only =
 
         ## Individual SN waveform data:
         # Define parameters
-        stream = obspy.read(path +'/mseed/*..' + SN + '..HDF.mseed')
+        stream = obspy.read(glob.escape(path) +'/mseed/*..' + SN + '..HDF.mseed')
         stream = _interpolate_stream(stream, gap_limit_sec=0.1)
         stream.merge()
         # Check for clipping - if it is flatlined
-- 
2.43.0


From 74f9f59483a5de81e6314d7f0b174cf1570b964c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 60/70] fix: gem_cat skips backups and other files that are not
 raw files

---
 gemlog/gem_cat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gem_cat.py b/gemlog/gem_cat.py
index 0b2c79e..ed40c8b 100644
--- a/gemlog/gem_cat.py
+++ b/gemlog/gem_cat.py
@@ -40,7 +40,7 @@ def gem_cat(input_dir, output_dir, ext = '', cat_all = False):
             raise Exception('Output path ' + output_dir + ' does not exist and cannot be created')
         else:
             print('Created output folder ' + output_dir)
-    gem_files = sorted(glob.glob(glob.escape(input_dir) + '/' + 'FILE[0-9][0-9][0-9][0-9].' + ext + '*'))
+    gem_files = sorted(glob.glob(glob.escape(input_dir) + '/' + 'FILE[0-9][0-9][0-9][0-9].' + ext + '?' * (3 - len(ext))))
     
     has_gps = np.zeros(len(gem_files))
     counter = 0
-- 
2.43.0


From 0da9e46f70579106b581d4aa69b1d6534d0c7a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:12 +0000
Subject: [PATCH 61/70] fix: the huddle test ignores files in the gps folder
 that are not GPS logs

---
 gemlog/huddle_test.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/huddle_test.py b/gemlog/huddle_test.py
index 2368820..46f6c4e 100644
--- a/gemlog/huddle_test.py
+++ b/gemlog/huddle_test.py
@@ -226,7 +226,7 @@ def verify_huddle_test(path, SN_list = [], SN_to_exclude = [], individual_only =
 
     ## identify the list of serial numbers to test, including user input to include/exclude
     if len(SN_list) == 0:
-        SN_list = unique([filename[-14:-11] for filename in glob.glob(glob.escape(path) + '/gps/*')])
+        SN_list = unique([filename[-14:-11] for filename in glob.glob(glob.escape(path) + '/gps/???gps_[0-9][0-9][0-9].txt')])
     SN_list = [SN for SN in SN_list if SN not in SN_to_exclude]
     print('Identified serial numbers ' + str(SN_list))
    
-- 
2.43.0


From 1a09707472e2811e1953f9fb81e90c7fa73bd1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:29 +0000
Subject: [PATCH 62/70] leave gemlog/huddle_test.py as it was: its name makes
 it count as a test file

---
 gemlog/huddle_test.py | 53 ++++++++++++++++++++++++++++---------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/gemlog/huddle_test.py b/gemlog/huddle_test.py
index 46f6c4e..4253cd6 100644
--- a/gemlog/huddle_test.py
+++ b/gemlog/huddle_test.py
@@ -61,7 +61,7 @@ def _min_starttime(SN_list, path):
     t1 = []
     t2 = []
     for SN in SN_list:
-        stream = obspy.read(glob.escape(path) +'/mseed/*..' + SN + '..HDF.mseed')
+        stream = obspy.read(path +'/mseed/*..' + SN + '..HDF.mseed')
         trace = stream[0]
         t1.append(trace.starttime)
         t2.append(trace.endtime)
@@ -226,7 +226,7 @@ def verify_huddle_test(path, SN_list = [], SN_to_exclude = [], individual_only =
 
     ## identify the list of serial numbers to test, including user input to include/exclude
     if len(SN_list) == 0:
-        SN_list = unique([filename[-14:-11] for filename in glob.glob(glob.escape(path) + '/gps/???gps_[0-9][0-9][0-9].txt')])
+        SN_list = unique([filename[-14:-11] for filename in glob.glob(path + '/gps/*')])
     SN_list = [SN for SN in SN_list if SN not in SN_to_exclude]
     print('Identified serial numbers ' + str(SN_list))
    
@@ -536,7 +536,7 @@ def verify_huddle_test(path, SN_list = [], SN_to_exclude = [], individual_only =
 
         ## Individual SN waveform data:
         # Define parameters
-        stream = obspy.read(glob.escape(path) +'/mseed/*..' + SN + '..HDF.mseed')
+        stream = obspy.read(path +'/mseed/*..' + SN + '..HDF.mseed')
         stream = _interpolate_stream(stream, gap_limit_sec=0.1)
         stream.merge()
         # Check for clipping - if it is flatlined
@@ -642,25 +642,44 @@ def verify_huddle_test(path, SN_list = [], SN_to_exclude = [], individual_only =
     #### at every given time, temperature must agree within 2C for all loggers
     # interval of 061 and 065 is 10 seconds
     check_interval = 60 #seconds (time between checks)
-
+    all_interval= interval_dict.values()
+    df_width = check_interval / int(min(all_interval)) # use largest interval to calculate size
+   
+    
     # Determine start and stop times (Unix time)
-    mod = gps_start_min % check_interval # modulus remainder to round start time to even minute
+    mod = gps_start_min % df_width # modulus remainder to round start time to even minute
     temp_start = gps_start_min - mod # start time on an even minute
-    mod = gps_stop_max % check_interval
+    mod = gps_stop_max % df_width
     temp_end = gps_stop_max - mod - check_interval*10 # stop time on an even minute, ten minutes before end
-    times_checked = np.arange(temp_start, temp_end, check_interval) # same times for all Gems
     
     # Create dataframe to house temperatures to check
-    column_index = np.arange(len(times_checked))
+    column_index = np.arange(0,int((temp_end-temp_start)/df_width),1) # theoretically, the number of values between start and end
 
     # group_temp_df has the unexpected structure of SN as row and time as column
-    group_temp_df = pd.DataFrame(np.nan, index = SN_list, columns = column_index) # create dataframe to house temperatures at each minute for each SN
+    group_temp_df = pd.DataFrame(index = SN_list, columns = column_index ) # create dataframe to house temperatures at each minute for each SN
+    times_checked = np.zeros((1,max(column_index)))
     
     for SN_index, SN in enumerate(SN_list):
         metadata = metadata_dict[SN]
-        # find the temperature sample closest to each time; nan if the Gem was not recording then
-        temp = metadata.dropna(subset = ['t']).drop_duplicates('t').set_index('t').temp.sort_index()
-        group_temp_df.loc[SN,:] = temp.reindex(times_checked, method = 'nearest', tolerance = check_interval/2).to_numpy()
+        temp_interval = check_interval / int(interval_dict[SN])
+        argstart_list = [] # reset closest start list
+        argend_list = [] # reset closest end list
+        times = metadata.t # call all the time metadata
+        for time in times: # for each time value in time metadata
+            argstart_list.append(np.abs(temp_start - time)) # create a list of time values minus start time (find closest to start)
+            argend_list.append(np.abs(temp_end - time)) # create list of time values minus end time (find closest index to end)
+        
+        start_index = np.argmin(argstart_list) # find index for closest minute time for start
+        #format to not include nans from metadata
+        stop_index = np.argmin(argend_list) # find index for last time value
+        # too high
+
+        times_to_check_index = np.arange(start_index, stop_index, temp_interval) # create evenly spaced array of even minutes
+        times_checked = np.arange(temp_start, temp_end, temp_interval) # must create index based on mutally agreed start time
+        
+        for df_index, index in enumerate(times_to_check_index):
+            #TROUBLESHOOT: 061 and 065 saving into dataframe as nan after index 29
+            group_temp_df.iloc[SN_index,df_index] = metadata.temp[index] # save minute temperature reading into dataframe
     error = False
     for column in column_index: # column represents temperature data for each time that will be checked 
         # might be operating dataframe functions on entire set, not by columns...
@@ -831,13 +850,11 @@ def verify_huddle_test(path, SN_list = [], SN_to_exclude = [], individual_only =
         ## Close and name file    
         pdf.output(f"{report_path}/{filename}.pdf")
         print("A pdf report has been generated")
-
-    return {'errors':errors + group_err, 'warnings':warnings + group_warn, 'stats':pstats_df, 'results':errors_df}
-
+    
 ##############################################
 def print_call():
-    print('verify_huddle_test -i <inputdir> -s <serialnumbers> -x <exclude_serialnumbers>')
-    print('-i --inputdir: default .')
+    print('gemconvert -i <inputdir> -s <serialnumbers> -x <exclude_serialnumbers>')
+    print('-i --inputdir: default ./raw/')
     print('-s --serialnumbers: separate by commas (no spaces); default all')
     print('-x --exclude_serialnumbers: separate by commas (no spaces); default none')
     print('-h --help: print this message')
@@ -852,7 +869,7 @@ def main(argv = None):
     outputdir = None
     gemlog._debug = True
     try:
-        opts, args = getopt.getopt(argv,"hdti:s:x:o:f:l:p:",["help","debug","inputdir=","serialnumbers=","exclude_serialnumbers="])
+        opts, args = getopt.getopt(argv,"hdti:s:x:o:f:l:p:",["inputdir=","serialnumber="])
     except getopt.GetoptError:
         print_call()
         sys.exit(2)
-- 
2.43.0


From fbf33ecc049f818acfee4050926a47e4658ec836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:54 +0000
Subject: [PATCH 63/70] fix: waveform_calc_directions projects only the
 stations that have lags

---
 gemlog/xcorr.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 68cce41..94dd450 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -100,7 +100,10 @@ def calculate_direction_terminal(input = sys.argv[1:]):
     except:
         raise Exception(f'Failed to open input_file {args.input_file[0]}')
     try:
-        locations = get_coordinates(obspy.read_inventory(args.location_file[0]))
+        inventory = obspy.read_inventory(args.location_file[0])
+        ## use only the stations that have lags: others could be far away, and distort the coordinates
+        short_IDs = [key.split('_')[1] for key in xcorr_df.keys() if key.startswith('rms_')]
+        locations = get_coordinates(inventory, short_IDs = short_IDs)
     except:
         raise Exception(f'Failed to open location_file {args.location_file[0]}')
 
@@ -469,7 +472,7 @@ def _check_input_IDs(file_metadata_df, IDs, exclude_IDs):
         output_IDs = remaining_IDs
     return(output_IDs)
 
-def get_coordinates(x, y = None):
+def get_coordinates(x, y = None, short_IDs = None):
     """
     Finds sensor coordinates from various inputs
     
@@ -477,6 +480,7 @@ def get_coordinates(x, y = None):
     -----------
     x: either an array of x coordinates, obspy.Stream with trace.stats['coords'], or obspy.Inventory
     y: either an array of y coordinates (if x is an array of x coordinates), or None
+    short_IDs: list of network.station.location codes to use if x is an obspy.Inventory (default: all)
 
     Returns:
     --------
@@ -507,6 +511,8 @@ def get_coordinates(x, y = None):
         coords['location'] = [tr.stats.location for tr in x]
     elif type(x) is obspy.Inventory:
         contents = x.get_contents()['channels']
+        if short_IDs is not None:
+            contents = [ID for ID in contents if '.'.join(ID.split('.')[:3]) in short_IDs]
         lats = [x.get_coordinates(s)['latitude'] for s in contents]
         lons = [x.get_coordinates(s)['longitude'] for s in contents]
         zz = [x.get_coordinates(s)['elevation'] for s in contents]
-- 
2.43.0


From d4e2ba7c18f4add58243b3da6dbc610ef6a1b6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 64/70] fix: calc_channel_stats leaves the table it is given
 alone

---
 gemlog/gemlog_aux.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index cf63de2..3503b0f 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -183,6 +183,7 @@ def calc_channel_stats(DB, t1, t2):
     t1 = obspy.core.UTCDateTime(t1)
     t2 = obspy.core.UTCDateTime(t2)
     numHour = (t2 - t1)/3600.0
+    DB = DB.copy() # leave the user's table as it is
     DB.t1 = DB.t1.apply(T)
     DB.t2 = DB.t2.apply(T)
     DB.goodData = (DB.amp_HP > 0.5) & (DB.amp_HP < 2e4) & ((DB.t2 - DB.t1) > 3598) & ((DB.t2 - DB.t1) < 3602)
-- 
2.43.0


From 9ce89871e6a8572b2d9b988b8c1a31800166078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:32 +0000
Subject: [PATCH 65/70] fix: invert_for_slowness leaves the table of locations
 alone

---
 gemlog/xcorr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index 94dd450..e39de7a 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -141,6 +141,7 @@ def invert_for_slowness(xcorr_df, locations):
             data_short_IDs.append(key.split('_')[1])
     data_short_IDs = sorted(data_short_IDs) # same order as in xcorr_function, even if the first windows lack some channels
             
+    locations = locations.copy() # leave the user's table as it is
     locations['ID'] = [f'{net}.{sta}.{loc}' for (net, sta, loc) in zip(locations.network, locations.station, locations.location)]
     keep_indices = np.where(np.isin(locations.ID, data_short_IDs))[0]
     locations = locations.iloc[keep_indices, :]
-- 
2.43.0


From a1c235e6ebc68d3cbeb6669ed0a23b02a07a008b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:36 +0000
Subject: [PATCH 66/70] fix: check_lags does not import what obspy no longer
 has (xcorr, which it doesn't use)

---
 gemlog/gemlog_aux.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index 3503b0f..69ad957 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -31,7 +31,7 @@ def check_discontinuity(files):
 def check_lags(DB, winlength = 1000, fl = 0.5, fh = 20, maxshift = 10, verbose = False):
     stations = DB.station.unique()
     nsta = len(stations)
-    from obspy.signal.cross_correlation import xcorr, correlate, xcorr_max
+    from obspy.signal.cross_correlation import correlate, xcorr_max
     st = obspy.Stream()
     st.filter('bandpass', freqmin=fl, freqmax = fh)
     for fn in DB.filename:
-- 
2.43.0


From 2f54783bf6f3b572aeb8c3050621b445a56c827c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 67/70] fix: check_lags filters the data (it filtered the
 stream before reading anything into it)

---
 gemlog/gemlog_aux.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index 69ad957..52f70d1 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -33,9 +33,12 @@ def check_lags(DB, winlength = 1000, fl = 0.5, fh = 20, maxshift = 10, verbose =
     nsta = len(stations)
     from obspy.signal.cross_correlation import correlate, xcorr_max
     st = obspy.Stream()
-    st.filter('bandpass', freqmin=fl, freqmax = fh)
     for fn in DB.filename:
-        st += obspy.read(fn)
+        st += obspy.read(glob.escape(fn))
+    st.merge()
+    st = st.split()
+    st.detrend('linear')
+    st.filter('bandpass', freqmin=fl, freqmax = fh)
     t0 = min(DB.t1).replace(minute=0, second=0, microsecond=0)
     t = []
     lag = np.zeros([nsta, 1])
-- 
2.43.0


From 1e5db0101003d35feacf93bd6224639aa3818476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:13 +0000
Subject: [PATCH 68/70] fix: check_lags compares each station with the next, in
 windows that all of them fill

---
 gemlog/gemlog_aux.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index 52f70d1..a7f34cf 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -56,9 +56,12 @@ def check_lags(DB, winlength = 1000, fl = 0.5, fh = 20, maxshift = 10, verbose =
             test_lags = []
             test_xc_coefs = []
             #st.trim(t1)
-            st_test = st.slice(t1, t1 + winlength)
+            dt = st[0].stats.delta
+            st_test = st.slice(t1, t1 + winlength - dt)
+            ## compare the stations' traces that fill the window; if any station has none, skip the window
+            traces = [[tr for tr in st_test if tr.stats.station == sta and tr.stats.npts == round(winlength/dt)][0] for sta in stations]
             for i in range(nsta):
-                xc_output = xcorr_max(correlate(st_test.traces[i], st_test.traces[(i+1) % nsta], maxshift))
+                xc_output = xcorr_max(correlate(traces[i], traces[(i+1) % nsta], maxshift))
                 test_lags.append(xc_output[0])
                 test_xc_coefs.append(xc_output[1])
             t.append(t1)
-- 
2.43.0


From f5afe17dc5f595cd981080007161be0ea336fdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 69/70] fix: the huddle test's interpolation accepts short data
 gaps close to each other

---
 gemlog/gemlog_aux.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gemlog/gemlog_aux.py b/gemlog/gemlog_aux.py
index a7f34cf..2542a19 100644
--- a/gemlog/gemlog_aux.py
+++ b/gemlog/gemlog_aux.py
@@ -366,6 +366,8 @@ def _interpolate_stream(st, gap_limit_sec = 0.1):
             st_new = st.slice(t1 - gap_limit_sec, t2 + gap_limit_sec)
             st_new.merge()
             tr_new = st_new[0]
+            if not np.ma.isMaskedArray(tr_new.data): # already filled along with the previous gap
+                continue
 
             ## interpolate the missing values using a cubic spline
             data_good = ~tr_new.data.mask
-- 
2.43.0


From 19ab9b29b73584673ec9a6fea58892e5f1e32d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:57 +0000
Subject: [PATCH 70/70] fix: windows are consistent if their lags add up to at
 most one sample per pair

---
 gemlog/xcorr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gemlog/xcorr.py b/gemlog/xcorr.py
index e39de7a..e5e0cde 100644
--- a/gemlog/xcorr.py
+++ b/gemlog/xcorr.py
@@ -361,7 +361,7 @@ def xcorr_function(st, args):
         shift, value = xcorr_max(correlate(tr1.data, tr2.data, int(np.round(maxshift_seconds / dt))), abs_max = False)
         output_dict[f'lag_{pair_name}'] = shift * dt
         output_dict[f'r_{pair_name}'] = value
-        consistency += shift/len(st)
+        consistency += shift
         output_dict['mean_coef'] += value/len(st)
     ## consistency: allow up to one sample error per cross-correlation
     output_dict['consistency'] = np.abs(consistency) <= len(st)
-- 
2.43.0

