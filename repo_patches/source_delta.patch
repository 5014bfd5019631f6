From 7880bc8e71e72769642e81e89eccd1ec5fc4deb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:01 +0000
Subject: [PATCH 001/108] fix: do not report feed_end_date as too early when
 one of the dates is absent

---
 transitfeed/feedinfo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transitfeed/feedinfo.py b/transitfeed/feedinfo.py
index a936d9d..d70031b 100644
--- a/transitfeed/feedinfo.py
+++ b/transitfeed/feedinfo.py
@@ -51,6 +51,8 @@ class FeedInfo(transitfeed.GtfsObjectBase):
                                                 'feed_end_date', problems)
 
     if (start_date_valid and end_date_valid and
+        not transitfeed.IsEmpty(self.feed_start_date) and
+        not transitfeed.IsEmpty(self.feed_end_date) and
         self.feed_end_date < self.feed_start_date):
         problems.InvalidValue('feed_end_date', self.feed_end_date,
                               'feed_end_date %s is earlier than '
-- 
2.43.0


From 7e75adfb98d99a8d77e6549910024e2c8ff13f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:01 +0000
Subject: [PATCH 002/108] fix: do not accept times, dates, colors and numbers
 with a trailing newline

---
 transitfeed/util.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/transitfeed/util.py b/transitfeed/util.py
index 1fea2dc..713e21f 100644
--- a/transitfeed/util.py
+++ b/transitfeed/util.py
@@ -287,7 +287,7 @@ def IsValidHexColor(color):
   Checks the validity of a hex color value:
     - the color string must consist of 6 hexadecimal digits
   """
-  return not re.match('^[0-9a-fA-F]{6}$', color) == None
+  return not re.match(r'^[0-9a-fA-F]{6}\Z', color) == None
 
 def IsValidLanguageCode(lang):
   """
@@ -459,7 +459,7 @@ def TimeToSecondsSinceMidnight(time_string):
 
   For example "01:02:03" returns 3723. The leading zero of the hours may be
   omitted. HH may be more than 23 if the time is on the following day."""
-  m = re.match(r'(\d{1,3}):([0-5]\d):([0-5]\d)$', time_string)
+  m = re.match(r'(\d{1,3}):([0-5]\d):([0-5]\d)\Z', time_string)
   # ignored: matching for leap seconds
   if not m:
     raise errors.Error('Bad HH:MM:SS "%s"' % time_string)
@@ -473,7 +473,7 @@ def FormatSecondsSinceMidnight(s):
 def DateStringToDateObject(date_string):
   """Return a date object for a string "YYYYMMDD"."""
   # If this becomes a bottleneck date objects could be cached
-  if re.match('^\d{8}$', date_string) == None:
+  if re.match(r'^\d{8}\Z', date_string) == None:
     return None
   try:
     return datetime.date(int(date_string[0:4]), int(date_string[4:6]),
@@ -484,7 +484,7 @@ def DateStringToDateObject(date_string):
 def FloatStringToFloat(float_string, problems=None):
   """Convert a float as a string to a float or raise an exception"""
   # Will raise TypeError unless a string
-  match = re.match(r"^[+-]?\d+(\.\d+)?$", float_string)
+  match = re.match(r"^[+-]?\d+(\.\d+)?\Z", float_string)
   # Will raise TypeError if the string can't be parsed
   parsed_value = float(float_string)
 
@@ -501,7 +501,7 @@ def FloatStringToFloat(float_string, problems=None):
 def NonNegIntStringToInt(int_string, problems=None):
   """Convert an non-negative integer string to an int or raise an exception"""
   # Will raise TypeError unless a string
-  match = re.match(r"^(?:0|[1-9]\d*)$", int_string)
+  match = re.match(r"^(?:0|[1-9]\d*)\Z", int_string)
   # Will raise ValueError if the string can't be parsed
   parsed_value = int(int_string)
 
-- 
2.43.0


From e0947d621022b81c7a24e903fd5b06b8fdb9a8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 003/108] fix: write stop_time values of 0 as 0 instead of
 leaving them out

---
 transitfeed/stoptime.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transitfeed/stoptime.py b/transitfeed/stoptime.py
index 21bdea4..65005d9 100755
--- a/transitfeed/stoptime.py
+++ b/transitfeed/stoptime.py
@@ -176,8 +176,9 @@ class StopTime(object):
         result.append(trip_id)
       else:
         # Since we'll be writting to an output file, we want empty values to be
-        # outputted as an empty string
-        result.append(getattr(self, fn) or '' )
+        # outputted as an empty string. A value of 0 is not an empty value.
+        value = getattr(self, fn)
+        result.append('' if value is None else value)
     return tuple(result)
 
   def GetSqlValuesTuple(self, trip_id):
-- 
2.43.0


From e078843c75d5e56d879ac7b5a921bb9fd1d43ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:27 +0000
Subject: [PATCH 004/108] fix: write a schedule whose feed_info.txt had a
 header but no row

---
 transitfeed/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 69e8c30..f634ed7 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -642,7 +642,7 @@ class Schedule(object):
       self._WriteArchiveString(archive, 'agency.txt', agency_string)
 
 
-    if 'feed_info' in self._table_columns:
+    if 'feed_info' in self._table_columns and self.feed_info is not None:
       feed_info_string = StringIO()
       writer = util.CsvUnicodeWriter(feed_info_string)
       columns = self.GetTableColumns('feed_info')
-- 
2.43.0


From 96208b74d54ddc781c58369b2106d7f092b53058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:02 +0000
Subject: [PATCH 005/108] fix: write the required columns of objects built
 through the API

---
 transitfeed/gtfsobjectbase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/gtfsobjectbase.py b/transitfeed/gtfsobjectbase.py
index c68432d..609a80e 100755
--- a/transitfeed/gtfsobjectbase.py
+++ b/transitfeed/gtfsobjectbase.py
@@ -115,7 +115,8 @@ class GtfsObjectBase(GtfsFactoryUser):
     return columns
 
   def _ColumnNames(self):
-    return self.keys()
+    # Required columns are written even if this object does not set them.
+    return self.keys().union(self._REQUIRED_FIELD_NAMES)
 
   def AddToSchedule(self, schedule, problems):
     self._schedule = schedule
-- 
2.43.0


From 312802b6fcfca32e2a6fbba0b35442cee4b3c328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 006/108] fix: report rows that are not valid csv instead of
 raising csv.Error

---
 transitfeed/loader.py | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 7679ceb..289b6c6 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -144,6 +144,25 @@ class Loader:
     contents = contents.lstrip(codecs.BOM_UTF8)
     return contents
 
+  def _ReadRows(self, reader, file_name):
+    """Yield (row number, row) of each row of reader.
+
+    A row that the csv module can't parse is reported and skipped."""
+    row_num = 0
+    while True:
+      row_num += 1
+      try:
+        row = next(reader)
+      except StopIteration:
+        return
+      except csv.Error as e:
+        self._problems.CsvSyntax(
+            description="This row is not valid csv and was skipped: %s" % e,
+            context=(file_name, row_num),
+            type=problems.TYPE_ERROR)
+        continue
+      yield (row_num, row)
+
   def _ReadCsvDict(self, file_name, cols, required, deprecated):
     """Reads lines from file_name, yielding a dict of unicode values."""
     assert file_name.endswith(".txt")
@@ -159,9 +178,12 @@ class Loader:
     # after fields. Space after header fields can cause a serious parsing
     # problem, so warn. Space after body fields can cause a problem time,
     # integer and id fields; they will be validated at higher levels.
-    reader = csv.reader(eol_checker, skipinitialspace=True)
+    rows = self._ReadRows(csv.reader(eol_checker, skipinitialspace=True),
+                          file_name)
 
-    raw_header = next(reader)
+    line_num, raw_header = next(rows, (0, None))
+    if line_num != 1:  # The header could not be read
+      return
     header_occurrences = util.defaultdict(lambda: 0)
     header = []
     valid_columns = []  # Index into raw_header and raw_row
@@ -224,9 +246,7 @@ class Loader:
         self._problems.DeprecatedColumn(file_name, deprecated_name, new_name,
                                         header_context)
 
-    line_num = 1  # First line read by reader.next() above
-    for raw_row in reader:
-      line_num += 1
+    for line_num, raw_row in rows:
       if len(raw_row) == 0:  # skip extra empty lines in file
         continue
 
@@ -289,9 +309,12 @@ class Loader:
 
     eol_checker = util.EndOfLineChecker(StringIO(contents),
                                    file_name, self._problems)
-    reader = csv.reader(eol_checker)  # Use excel dialect
+    rows = self._ReadRows(csv.reader(eol_checker),  # Use excel dialect
+                          file_name)
 
-    header = next(reader)
+    row_num, header = next(rows, (0, None))
+    if row_num != 1:  # The header could not be read
+      return
     header = map(lambda x: x.strip(), header)  # trim any whitespace
     header_occurrences = util.defaultdict(lambda: 0)
     for column_header in header:
@@ -327,9 +350,7 @@ class Loader:
         self._problems.DeprecatedColumn(file_name, deprecated_name, new_name,
                                         header_context)
 
-    row_num = 1
-    for row in reader:
-      row_num += 1
+    for row_num, row in rows:
       if len(row) == 0:  # skip extra empty lines in file
         continue
 
-- 
2.43.0


From 975608163aaedcfb62c5f12d7dd9ec084d5801a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 007/108] fix: do not fail on files that are truncated or
 broken utf-16

---
 transitfeed/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 289b6c6..9539c8d 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -126,7 +126,8 @@ class Loader:
         codecs.BOM_UTF16_LE):
       self._problems.FileFormat("appears to be encoded in utf-16", (file_name, ))
       # Convert and continue, so we can find more errors
-      contents = codecs.getdecoder('utf-16')(contents)[0].encode('utf-8')
+      contents = codecs.getdecoder('utf-16')(contents, 'replace')[0].encode(
+          'utf-8')
 
     null_index = contents.find('\0')
     if null_index != -1:
-- 
2.43.0


From 57f11f16eb704573c6f85a0e1d9dab8749c0a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 008/108] fix: ignore unrecognized columns named like methods
 or private attributes

---
 transitfeed/loader.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 9539c8d..795be72 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -394,6 +394,16 @@ class Loader:
                                     (file_name, row_num, result, cols))
       yield (result, row_num, cols)
 
+  @staticmethod
+  def _WithoutReservedNames(d, object_class):
+    """Return d without unrecognized columns that would hide a method or a
+    private attribute of the objects of object_class."""
+    known = set(object_class._FIELD_NAMES)
+    known.update(name for (name, _) in object_class._DEPRECATED_FIELD_NAMES)
+    return dict((name, value) for name, value in d.items()
+                if name in known or not (name.startswith('_') or
+                                         hasattr(object_class, name)))
+
   def _HasFile(self, file_name):
     """Returns True if there's a file in the current feed with the
        given file_name in the current feed."""
@@ -437,7 +447,8 @@ class Loader:
                                        object_class._REQUIRED_FIELD_NAMES,
                                        object_class._DEPRECATED_FIELD_NAMES):
           self._problems.SetFileContext(filename, row_num, row, header)
-          instance = object_class(field_dict=d)
+          instance = object_class(
+              field_dict=self._WithoutReservedNames(d, object_class))
           instance.SetGtfsFactory(self._gtfs_factory)
           if not instance.ValidateBeforeAdd(self._problems):
             continue
@@ -528,7 +539,9 @@ class Loader:
       file_context = (file_name, row_num, row, header)
       self._problems.SetFileContext(*file_context)
 
-      shapepoint = self._gtfs_factory.ShapePoint(field_dict=d)
+      shapepoint_class = self._gtfs_factory.ShapePoint
+      shapepoint = shapepoint_class(
+          field_dict=self._WithoutReservedNames(d, shapepoint_class))
       if not shapepoint.ParseAttributes(self._problems):
         continue
 
-- 
2.43.0


From 96ea21f4ab53601fb61810fbf1423c76efe0893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 009/108] fix: report duplicate calendar exceptions of rows
 without id or date

---
 transitfeed/problems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/problems.py b/transitfeed/problems.py
index 98e507b..4e37f86 100755
--- a/transitfeed/problems.py
+++ b/transitfeed/problems.py
@@ -170,7 +170,8 @@ class ProblemReporter(object):
     if isinstance(column_names, (tuple, list)):
       column_names = '(' + ', '.join(column_names) + ')'
     if isinstance(values, tuple):
-      values = '(' + ', '.join(values) + ')'
+      values = '(' + ', '.join(
+          '' if value is None else value for value in values) + ')'
     e = DuplicateID(column_name=column_names, value=values,
                     context=context, context2=self._context, type=type)
     self.AddToAccumulator(e)
-- 
2.43.0


From dbd9454369d26019743383240e6a8b71c6b20904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 010/108] fix: compare agency time zones when an agency has
 none

---
 transitfeed/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index f634ed7..5af1e87 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -804,7 +804,7 @@ class Schedule(object):
     return date_trips
 
   def ValidateAgenciesHaveSameAgencyTimezone(self, problems):
-    timezones_set = set(map(lambda agency:agency.agency_timezone,
+    timezones_set = set(map(lambda agency:agency.agency_timezone or '',
                             self.GetAgencyList()))
     if len(timezones_set) > 1:
       timezones_str = '"%s"' % ('", "'.join(timezones_set))
-- 
2.43.0


From d1872027d8b7a7c9dfeffebe314eec7d376b3f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:43 +0000
Subject: [PATCH 011/108] fix: do not fail on the distance of points with
 invalid latitudes

---
 transitfeed/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transitfeed/util.py b/transitfeed/util.py
index 713e21f..f04ea6d 100644
--- a/transitfeed/util.py
+++ b/transitfeed/util.py
@@ -526,8 +526,9 @@ def ApproximateDistance(degree_lat1, degree_lng1, degree_lat2, degree_lng2):
   dlat = math.sin(0.5 * (lat2 - lat1))
   dlng = math.sin(0.5 * (lng2 - lng1))
   x = dlat * dlat + dlng * dlng * math.cos(lat1) * math.cos(lat2)
-  return EARTH_RADIUS * (2 * math.atan2(math.sqrt(x),
-      math.sqrt(max(0.0, 1.0 - x))))
+  # Rounding, or a latitude beyond the poles, can push x out of 0.0 to 1.0.
+  x = min(1.0, max(0.0, x))
+  return EARTH_RADIUS * (2 * math.atan2(math.sqrt(x), math.sqrt(1.0 - x)))
 
 def ApproximateDistanceBetweenStops(stop1, stop2):
   """Compute approximate distance between two stops in meters. Assumes the
-- 
2.43.0


From 49843231f2606317dbe290548d4e9cd571d39d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 012/108] fix: do not fail on a shape where only some points
 have a distance

---
 transitfeed/shape.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index 35cfb20..28a3c21 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -69,6 +69,7 @@ class Shape(GtfsFactoryUser):
 
     if shapepoint.shape_dist_traveled is not None and len(self.sequence) > 0:
       if (index != len(self.sequence) and
+          self.distance[index] is not None and
           shapepoint.shape_dist_traveled > self.distance[index]):
         problems.InvalidValue('shape_dist_traveled',
                               shapepoint.shape_dist_traveled,
-- 
2.43.0


From eae73ef16c1fdae1ebef717b0bb719ec7525eaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:59 +0000
Subject: [PATCH 013/108] fix: do not fail on timed transfers between stops
 without location

---
 transitfeed/transfer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transitfeed/transfer.py b/transitfeed/transfer.py
index ddcd8b2..e7f191a 100755
--- a/transitfeed/transfer.py
+++ b/transitfeed/transfer.py
@@ -154,6 +154,10 @@ class Transfer(GtfsObjectBase):
       return
 
     distance = self.GetTransferDistance()
+    if distance is None:
+      # The location of a stop is missing, which has already been reported.
+      return
+
     # If min_transfer_time + 120s isn't enough for someone walking very fast
     # (2m/s) then issue a warning.
     #
-- 
2.43.0


From fe48bea5c622b2c8dc5c5b9d00c1d8bc4c73ac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 014/108] fix: do not fail on stops along a shape where only
 some points have a distance

---
 transitfeed/shape.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index 28a3c21..76d0145 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -150,6 +150,10 @@ class Shape(GtfsFactoryUser):
     (lat0, lng0, dist0) = self.points[index - 1]
     (lat1, lng1, dist1) = self.points[index]
 
+    if dist0 is None or dist1 is None:
+      # Only some points of the shape have a distance.
+      return None
+
     # Interpolate if shape_dist_traveled does not equal to any of the point
     # in shape segment.
     # (lat0, lng0)          (lat, lng)           (lat1, lng1)
-- 
2.43.0


From 1f25e40659c323a4aaca96ced7faca7aa7bf0b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 015/108] fix: do not use calendar exceptions whose date was
 reported as invalid

---
 transitfeed/serviceperiod.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/transitfeed/serviceperiod.py b/transitfeed/serviceperiod.py
index 7098f54..e65a20a 100755
--- a/transitfeed/serviceperiod.py
+++ b/transitfeed/serviceperiod.py
@@ -313,7 +313,9 @@ class ServicePeriod(object):
 
   def ValidateDates(self, problems):
     for date, (exception_type, context) in self.date_exceptions.items():
-      self.ValidateDate(date, 'date', problems, context)
+      if not self.ValidateDate(date, 'date', problems, context):
+        # As for start_date and end_date, an invalid date is not used.
+        del self.date_exceptions[date]
 
   def ValidateDate(self, date, field_name, problems, context=None):
     if date is None:
-- 
2.43.0


From b8d9f302b918bb9497d5201c27c4dbade68bc5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 016/108] fix: do not accept infinity and nan as numbers

---
 transitfeed/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transitfeed/util.py b/transitfeed/util.py
index f04ea6d..9c3dcf1 100644
--- a/transitfeed/util.py
+++ b/transitfeed/util.py
@@ -493,6 +493,9 @@ def FloatStringToFloat(float_string, problems=None):
     # But it does complain about float("0b10"), so this should be enough.
     raise ValueError()
 
+  if math.isinf(parsed_value) or math.isnan(parsed_value):
+    raise ValueError()
+
   if not match and problems is not None:
     # Does not match the regex, but it's a float according to Python
     problems.InvalidFloatValue(float_string)
-- 
2.43.0


From b05c6dade5331fe84eefb307da0a298c73b54a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:59 +0000
Subject: [PATCH 017/108] fix: do not report stops far from a shape point that
 has no distance

---
 transitfeed/shape.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index 76d0145..e0a98e1 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -141,6 +141,9 @@ class Shape(GtfsFactoryUser):
     """
     if not self.distance:
       return None
+    if self.distance[0] is None or self.distance[-1] is None:
+      # Only some points of the shape have a distance.
+      return None
     if shape_dist_traveled <= self.distance[0]:
       return self.points[0]
     if shape_dist_traveled >= self.distance[-1]:
-- 
2.43.0


From ac5eba3b3149b89061730c105da82cc306695b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:59 +0000
Subject: [PATCH 018/108] fix: do not fail on a column service_period in
 trips.txt

---
 transitfeed/trip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index ae9b374..45cd029 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -505,7 +505,7 @@ class Trip(GtfsObjectBase):
       problems.MissingValue('route_id')
 
   def ValidateServicePeriod(self, problems):
-    if 'service_period' in self.__dict__:
+    if hasattr(self.__dict__.get('service_period'), 'service_id'):
       # Some tests assign to the service_period attribute. Patch up self before
       # proceeding with validation. See also comment in Trip.__init__.
       self.service_id = self.__dict__['service_period'].service_id
-- 
2.43.0


From 9b2dc313121ebdab32834484aa56e25b3849c592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:06 +0000
Subject: [PATCH 019/108] fix: name the right origin of the service range when
 a service has no dates

---
 transitfeed/schedule.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 5af1e87..f88bcb0 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -281,14 +281,15 @@ class Schedule(object):
     """
     period_list = self.GetServicePeriodList()
     ranges = [period.GetDateRange() for period in period_list]
-    starts = filter(lambda x: x, [item[0] for item in ranges])
-    ends = filter(lambda x: x, [item[1] for item in ranges])
+    # (date, index in period_list); some periods have no dates at all
+    starts = [(item[0], i) for i, item in enumerate(ranges) if item[0]]
+    ends = [(item[1], i) for i, item in enumerate(ranges) if item[1]]
 
     if not starts or not ends:
       return (None, None, None, None)
 
-    minvalue, minindex = min(itertools.izip(starts, itertools.count()))
-    maxvalue, maxindex = max(itertools.izip(ends, itertools.count()))
+    minvalue, minindex = min(starts)
+    maxvalue, maxindex = max(ends)
 
     minreason = (period_list[minindex].HasDateExceptionOn(minvalue) and
                  "earliest service exception date in calendar_dates.txt" or
-- 
2.43.0


From f67c7ca925677f79bd40ca6032f6acf2b9f2b743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 020/108] fix: make the deprecated ways to add a headway period
 work

---
 transitfeed/trip.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 45cd029..b8319b6 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -381,7 +381,7 @@ class Trip(GtfsObjectBase):
     warnings.warn("No longer supported. The HeadwayPeriod class was renamed to "
                   "Frequency, and all related functions were renamed "
                   "accordingly.", DeprecationWarning)
-    self.AddFrequencyObject(frequency, problem_reporter)
+    self.AddFrequencyObject(headway_period, problem_reporter)
 
   def AddFrequencyObject(self, frequency, problem_reporter):
     """Add a Frequency object to this trip's list of Frequencies."""
@@ -398,7 +398,8 @@ class Trip(GtfsObjectBase):
     warnings.warn("No longer supported. The HeadwayPeriod class was renamed to "
                   "Frequency, and all related functions were renamed "
                   "accordingly.", DeprecationWarning)
-    self.AddFrequency(start_time, end_time, headway_secs, problem_reporter)
+    self.AddFrequency(start_time, end_time, headway_secs,
+                      problem_reporter=problem_reporter)
 
   def AddFrequency(self, start_time, end_time, headway_secs, exact_times=0,
       problem_reporter=problems_module.default_problem_reporter):
-- 
2.43.0


From 2f847a3237698e8d0e3907da9f31aa895b579c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 021/108] fix: return frequency start times sorted, as
 documented

---
 transitfeed/trip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index b8319b6..a2deacd 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -340,6 +340,7 @@ class Trip(GtfsObjectBase):
         start_times.append(run_secs)
         # increment current run secs by headway secs
         run_secs += headway_secs
+    start_times.sort()
     return start_times
 
   def GetEndTime(self, problems=problems_module.default_problem_reporter):
-- 
2.43.0


From 2eee2f957524e21cc4dfd1e4dafb1de38cf52b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 022/108] fix: do not add a frequency with a negative
 start_time

---
 transitfeed/trip.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index a2deacd..7c6a424 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -433,6 +433,7 @@ class Trip(GtfsObjectBase):
         return
     elif start_time < 0:
       problem_reporter.InvalidValue('start_time', start_time)
+      return
 
     if end_time == None or end_time == '':
       problem_reporter.MissingValue('end_time')
-- 
2.43.0


From 42242f76ddbfd546426fd887ba1537e4d3b9d10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 023/108] fix: expand the frequencies of trips without stops or
 with purposeless stops

---
 transitfeed/trip.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 7c6a424..9092f2d 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -272,6 +272,12 @@ class Trip(GtfsObjectBase):
     """
     stoptimes_list = [] # list of stoptime lists to be returned
     stoptime_pattern = self.GetStopTimes()
+    if not stoptime_pattern:
+      return []
+    if problems is None:
+      # TODO: delete this branch when StopTime.__init__ doesn't need a
+      # ProblemReporter
+      problems = problems_module.default_problem_reporter
     first_secs = stoptime_pattern[0].arrival_secs # first time of the trip
     stoptime_class = self.GetGtfsFactory().StopTime
     # for each start time of a headway run
-- 
2.43.0


From f4f60c36c4b985b646b3fc8259ee73c0331b7ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:54 +0000
Subject: [PATCH 024/108] fix: make Frequency.Validate callable

---
 transitfeed/frequency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/frequency.py b/transitfeed/frequency.py
index f523a37..81ae7e4 100644
--- a/transitfeed/frequency.py
+++ b/transitfeed/frequency.py
@@ -78,7 +78,7 @@ class Frequency(GtfsObjectBase):
       return
 
     def Validate(self, problems=None):
-      returns
+      return
 
     def AddToSchedule(self, schedule=None, problems=None):
       if schedule is None:
-- 
2.43.0


From 4a18a0e3d93ebbf5702e54c7d351ea294f553413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:33 +0000
Subject: [PATCH 025/108] fix: keep calendar exceptions with a real date
 outside the usual years

---
 transitfeed/serviceperiod.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/transitfeed/serviceperiod.py b/transitfeed/serviceperiod.py
index e65a20a..32812ac 100755
--- a/transitfeed/serviceperiod.py
+++ b/transitfeed/serviceperiod.py
@@ -313,8 +313,9 @@ class ServicePeriod(object):
 
   def ValidateDates(self, problems):
     for date, (exception_type, context) in self.date_exceptions.items():
-      if not self.ValidateDate(date, 'date', problems, context):
-        # As for start_date and end_date, an invalid date is not used.
+      if (not self.ValidateDate(date, 'date', problems, context) and
+          (util.IsEmpty(date) or not util.IsValidDate(date))):
+        # What is not a date at all can not be used. It has been reported.
         del self.date_exceptions[date]
 
   def ValidateDate(self, date, field_name, problems, context=None):
-- 
2.43.0


From 2d58fca4b96a51e80f4cc1ebc4f35039f0b356f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:33 +0000
Subject: [PATCH 026/108] fix: refuse to replace a missing stop time with any
 database module

---
 transitfeed/trip.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 9092f2d..57a28ec 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -100,11 +100,15 @@ class Trip(GtfsObjectBase):
 
     new_secs = stoptime.GetTimeSecs()
     cursor = schedule._connection.cursor()
-    cursor.execute("DELETE FROM stop_times WHERE trip_id=? and "
+    # cursor.rowcount of the DELETE is not set by all database modules.
+    cursor.execute("SELECT count(*) FROM stop_times WHERE trip_id=? and "
                    "stop_sequence=? and stop_id=?",
                    (self.trip_id, stoptime.stop_sequence, stoptime.stop_id))
-    if cursor.rowcount == 0:
+    if cursor.fetchone()[0] == 0:
       raise problems_module.Error('Attempted replacement of StopTime object which does not exist')
+    cursor.execute("DELETE FROM stop_times WHERE trip_id=? and "
+                   "stop_sequence=? and stop_id=?",
+                   (self.trip_id, stoptime.stop_sequence, stoptime.stop_id))
     self._AddStopTimeObjectUnordered(stoptime, schedule)
 
   def AddStopTimeObject(self, stoptime, schedule=None, problems=None):
-- 
2.43.0


From 1b3ba6108f0ed165e861fc10f0af0a01b4625880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:33 +0000
Subject: [PATCH 027/108] fix: do not keep the pattern_id of a trip whose stops
 change

---
 transitfeed/trip.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 57a28ec..51ec283 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -79,6 +79,7 @@ class Trip(GtfsObjectBase):
 
     The trip isn't checked for duplicate sequence numbers so it must be
     validated later."""
+    self.__dict__.pop('_pattern_id', None)
     stop_time_class = self.GetGtfsFactory().StopTime
     cursor = schedule._connection.cursor()
     insert_query = "INSERT INTO stop_times (%s) VALUES (%s);" % (
@@ -225,6 +226,7 @@ class Trip(GtfsObjectBase):
     StopTime objects previously returned by GetStopTimes are unchanged but are
     no longer associated with this trip.
     """
+    self.__dict__.pop('_pattern_id', None)
     cursor = self._schedule._connection.cursor()
     cursor.execute('DELETE FROM stop_times WHERE trip_id=?', (self.trip_id,))
 
-- 
2.43.0


From 16bfdd955e54ce001172c403c8b0401922b89b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:33 +0000
Subject: [PATCH 028/108] fix: interpolate the times of stops at the same place

---
 transitfeed/trip.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 51ec283..790032b 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -213,7 +213,11 @@ class Trip(GtfsObjectBase):
         rv.append( (st.GetTimeSecs(), st, True) )
       else:
         distance_traveled_between_timepoints += util.ApproximateDistanceBetweenStops(stoptimes[i-1].stop, st.stop)
-        distance_percent = distance_traveled_between_timepoints / distance_between_timepoints
+        if distance_between_timepoints:
+          distance_percent = distance_traveled_between_timepoints / distance_between_timepoints
+        else:
+          # All the stops are at the same place
+          distance_percent = 0
         total_time = next_timepoint.GetTimeSecs() - cur_timepoint.GetTimeSecs()
         time_estimate = distance_percent * total_time + cur_timepoint.GetTimeSecs()
         rv.append( (int(round(time_estimate)), st, False) )
-- 
2.43.0


From 14128776640e0c784e92a7357037b6788cdac09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:24 +0000
Subject: [PATCH 029/108] fix: forget the distances and sequence of cleared
 shape points

---
 transitfeed/shape.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/transitfeed/shape.py b/transitfeed/shape.py
index e0a98e1..d61a573 100755
--- a/transitfeed/shape.py
+++ b/transitfeed/shape.py
@@ -98,6 +98,9 @@ class Shape(GtfsFactoryUser):
 
   def ClearPoints(self):
     self.points = []
+    self.max_distance = 0
+    self.distance = []
+    self.sequence = []
 
   def __eq__(self, other):
     if not other:
-- 
2.43.0


From e619519a91d9fec291d8bfdcb4b93b9fe70b5c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:47 +0000
Subject: [PATCH 030/108] fix: check the distance to the shape of stops on the
 equator and zero meridian

---
 transitfeed/trip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index 790032b..c59d6ef 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -693,7 +693,7 @@ class Trip(GtfsObjectBase):
             pt = shape.GetPointWithDistanceTraveled(st.shape_dist_traveled)
             if pt:
               stop = self._schedule.GetStop(st.stop_id)
-              if stop.stop_lat and stop.stop_lon:
+              if stop.stop_lat is not None and stop.stop_lon is not None:
                 distance = util.ApproximateDistance(stop.stop_lat,
                                                     stop.stop_lon,
                                                     pt[0], pt[1])
-- 
2.43.0


From 7fad3a9457eeff83845f5a5c14d55538c20f562a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:48 +0000
Subject: [PATCH 031/108] fix: count no departures for a trip without stop
 times

---
 transitfeed/schedule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index f88bcb0..ec34abe 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -792,7 +792,7 @@ class Schedule(object):
 
       service_id_to_trips[trip.service_id] += trip_runs
       service_id_to_departures[trip.service_id] += (
-          (trip.GetCountStopTimes() - 1) * trip_runs)
+          max(trip.GetCountStopTimes() - 1, 0) * trip_runs)
 
     date_services = self.GetServicePeriodsActiveEachDate(date_start, date_end)
     date_trips = []
-- 
2.43.0


From 243d115e82a5026c9844289526c1a04b1f2ee991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:44 +0000
Subject: [PATCH 032/108] fix: keep checking blocks after a trip with an
 unknown service

---
 transitfeed/schedule.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index ec34abe..9287bcf 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -1250,14 +1250,14 @@ class Schedule(object):
             # full service period comparison
             if service_id_pair_key not in service_period_overlap_cache:
               
-              # If the trip references an unknown service id, then we bail,
-              # since we can't effectively determine block overlap and an
+              # If the trip references an unknown service id, then we skip
+              # the pair, since we can't effectively determine block overlap and an
               # error will have already been registered for the missing
               # service id.
               if trip_a.service_id not in self.service_periods:
-                return
+                continue
               if trip_b.service_id not in self.service_periods:
-                return
+                continue
 
               service_period_a = self.GetServicePeriod(trip_a.service_id)
               service_period_b = self.GetServicePeriod(trip_b.service_id)
-- 
2.43.0


From 40f5e72d02756480d3f70e54818cff8e6497432f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 033/108] fix: find nearest stops by their distance on the
 sphere

---
 transitfeed/schedule.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 9287bcf..d1e5df2 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -586,12 +586,11 @@ class Schedule(object):
     """Return the n nearest stops to lat,lon"""
     dist_stop_list = []
     for s in self.stops.values():
-      # TODO: Use util.ApproximateDistanceBetweenStops?
-      dist = (s.stop_lat - lat)**2 + (s.stop_lon - lon)**2
-      if len(dist_stop_list) < n:
-        bisect.insort(dist_stop_list, (dist, s))
-      elif dist < dist_stop_list[-1][0]:
-        bisect.insort(dist_stop_list, (dist, s))
+      if s.stop_lat is None or s.stop_lon is None:
+        continue
+      dist = util.ApproximateDistance(s.stop_lat, s.stop_lon, lat, lon)
+      bisect.insort(dist_stop_list, (dist, s))
+      if len(dist_stop_list) > n:
         dist_stop_list.pop()  # Remove stop with greatest distance
     return [stop for dist, stop in dist_stop_list]
 
-- 
2.43.0


From a6478d70636326eda98ed74752c0914a1400e571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:19 +0000
Subject: [PATCH 034/108] fix: look for close stops on the equator and zero
 meridian too

---
 transitfeed/schedule.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index d1e5df2..5d60403 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -1029,7 +1029,8 @@ class Schedule(object):
     # each pair of stations within 2 meters latitude of each other. This avoids
     # doing n^2 comparisons in the average case and doesn't need a spatial
     # index.
-    sorted_stops = filter(lambda s: s.stop_lat and s.stop_lon,
+    sorted_stops = filter(lambda s: (s.stop_lat is not None and
+                                     s.stop_lon is not None),
                           self.GetStopList())
     sorted_stops.sort(
         key=(lambda x: [x.stop_lat, x.stop_lon, getattr(x, 'stop_id', None)]))
-- 
2.43.0


From 0fb4b4e1ae2368576b916f629aa88407b6cd3c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:44 +0000
Subject: [PATCH 035/108] fix: do not report problems of the whole feed in the
 context of a skipped row

---
 transitfeed/loader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 795be72..b1c7ed0 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -629,6 +629,8 @@ class Loader:
       self._zip.close()
       self._zip = None
 
+    # Rows that were skipped leave their context behind.
+    self._problems.ClearContext()
     if self._extra_validation:
       self._schedule.Validate(self._problems, validate_children=False)
 
-- 
2.43.0


From 9e033e0839cf9f38f766be72ae79b78ddf2e211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:49 +0000
Subject: [PATCH 036/108] fix: report a blank route_type once

---
 transitfeed/route.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/route.py b/transitfeed/route.py
index b46c111..24b9c68 100755
--- a/transitfeed/route.py
+++ b/transitfeed/route.py
@@ -183,7 +183,7 @@ class Route(GtfsObjectBase):
                             'route_desc shouldn\'t be the same as '
                             'route_short_name or route_long_name')
   def ValidateRouteTypeHasValidValue(self, problems):
-    if self.route_type is not None:
+    if not util.IsEmpty(self.route_type):
       try:
         if not isinstance(self.route_type, int):
           self.route_type = util.NonNegIntStringToInt(self.route_type, problems)
-- 
2.43.0


From 29ab8cc545338bcf7de1366db61a7bdb4b069e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:49 +0000
Subject: [PATCH 037/108] fix: report invalid exception dates at their row of
 calendar_dates.txt

---
 transitfeed/serviceperiod.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/serviceperiod.py b/transitfeed/serviceperiod.py
index 32812ac..8091a76 100755
--- a/transitfeed/serviceperiod.py
+++ b/transitfeed/serviceperiod.py
@@ -327,7 +327,8 @@ class ServicePeriod(object):
     if util.IsEmpty(date):
       problems.MissingValue(field_name, date, context)
       return False
-    elif not util.ValidateDate(date, field_name, problems):
+    elif not util.IsValidDate(date):
+      problems.InvalidValue(field_name, date, context=context)
       return False
     else:
       try:
-- 
2.43.0


From e54c2cfd38182540a3a5836d7f3b1a3bdaf005eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:49 +0000
Subject: [PATCH 038/108] fix: report an exact_times other than 0 and 1 once

---
 transitfeed/frequency.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/transitfeed/frequency.py b/transitfeed/frequency.py
index 81ae7e4..d665fbe 100644
--- a/transitfeed/frequency.py
+++ b/transitfeed/frequency.py
@@ -69,6 +69,8 @@ class Frequency(GtfsObjectBase):
             'Should be 0 (no fixed schedule) or 1 (fixed and ' \
             'regular schedule, shortcut for a repetitive ' \
             'stop_times file).')
+        # Trip.AddFrequency would report it again
+        del self.exact_times
 
     def ValidateBeforeAdd(self, problems):
       self.ValidateExactTimes(problems)
-- 
2.43.0


From 973f73166710ec897a8a56982ee41e743c54857c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:24 +0000
Subject: [PATCH 039/108] fix: report repeated transfers to the given problem
 reporter

---
 transitfeed/schedule.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 5d60403..39dae28 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -557,9 +557,9 @@ class Schedule(object):
     transfer_id = transfer._ID()
 
     if transfer_id in self._transfers:
-      self.problem_reporter.DuplicateID(self._gtfs_factory.Transfer._ID_COLUMNS,
-                                        transfer_id,
-                                        type=problems_module.TYPE_WARNING)
+      problem_reporter.DuplicateID(self._gtfs_factory.Transfer._ID_COLUMNS,
+                                   transfer_id,
+                                   type=problems_module.TYPE_WARNING)
       # Duplicates are still added, while not prohibited by GTFS.
 
     transfer._schedule = weakref.proxy(self)  # See weakref comment at top
-- 
2.43.0


From 10e86c7c5a7f168192a0b20b655c03050e343eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:23 +0000
Subject: [PATCH 040/108] fix: keep the type of route_type when copying a route

---
 transitfeed/route.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transitfeed/route.py b/transitfeed/route.py
index 24b9c68..e55edb1 100755
--- a/transitfeed/route.py
+++ b/transitfeed/route.py
@@ -64,7 +64,13 @@ class Route(GtfsObjectBase):
         field_dict['route_id'] = route_id
       if agency_id is not None:
         field_dict['agency_id'] = agency_id
-    self.__dict__.update(field_dict)
+    if isinstance(field_dict, self.__class__):
+      # Special case so that we don't need to re-parse the attributes to
+      # native types iteritems returns all attributes that don't start with _
+      for k, v in field_dict.iteritems():
+        self.__dict__[k] = v
+    else:
+      self.__dict__.update(field_dict)
 
   def AddTrip(self, schedule=None, headsign=None, service_period=None,
               trip_id=None):
-- 
2.43.0


From 09fa6205fd9445c5687e68c492f284c55761de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:23 +0000
Subject: [PATCH 041/108] fix: keep timepoint when merging stop times

---
 merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/merge.py b/merge.py
index 0991096..f859b31 100755
--- a/merge.py
+++ b/merge.py
@@ -1475,7 +1475,8 @@ class TripMerger(DataSetMerger):
           original_stop_time.drop_off_type,
           original_stop_time.shape_dist_traveled,
           original_stop_time.arrival_secs,
-          original_stop_time.departure_secs)
+          original_stop_time.departure_secs,
+          timepoint=original_stop_time.timepoint)
       migrated_trip.AddStopTimeObject(migrated_stop_time)
 
     for headway_period in original_trip.GetFrequencyTuples():
-- 
2.43.0


From 134804589bdcfde25224e8e61201912ea94d2988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:23 +0000
Subject: [PATCH 042/108] fix: add merged trips to the route they were merged
 into

---
 merge.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/merge.py b/merge.py
index f859b31..1144b8c 100755
--- a/merge.py
+++ b/merge.py
@@ -1439,9 +1439,6 @@ class TripMerger(DataSetMerger):
       migrated_trip.trip_id = self.feed_merger.GenerateId(
           original_trip.trip_id)
       migrated_trip.original_trip_id = original_trip.trip_id
-    # Need to add trip to schedule before copying stoptimes
-    self.feed_merger.merged_schedule.AddTripObject(migrated_trip,
-                                                   validate=False)
 
     if schedule == self.feed_merger.a_schedule:
       merge_map = self.feed_merger.a_merge_map
@@ -1464,6 +1461,11 @@ class TripMerger(DataSetMerger):
       original_shape = schedule.GetShape(original_trip.shape_id)
       migrated_trip.shape_id = merge_map[original_shape].shape_id
 
+    # Need to add trip to schedule before copying stoptimes. This adds the trip
+    # to its route, so route_id must be the one in the merged schedule.
+    self.feed_merger.merged_schedule.AddTripObject(migrated_trip,
+                                                   validate=False)
+
     for original_stop_time in original_trip.GetStopTimes():
       migrated_stop_time = transitfeed.StopTime(
           None,
-- 
2.43.0


From d682ce2b474edbb64e50f852d60c998d2a28e837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:23 +0000
Subject: [PATCH 043/108] fix: merge entities that differ only in a missing
 against an empty value

---
 merge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/merge.py b/merge.py
index 1144b8c..0f121f1 100755
--- a/merge.py
+++ b/merge.py
@@ -394,6 +394,8 @@ class DataSetMerger(object):
   def _MergeIdentical(self, a, b):
     """Tries to merge two values. The values are required to be identical.
 
+    A value that is missing (None) is identical to an empty one.
+
     Args:
       a: The first value.
       b: The second value.
@@ -404,7 +406,7 @@ class DataSetMerger(object):
     Raises:
       MergeError: The values were not identical.
     """
-    if a != b:
+    if a != b and not (util.IsEmpty(a) and util.IsEmpty(b)):
       raise MergeError("values must be identical ('%s' vs '%s')" %
                        (transitfeed.EncodeUnicode(a),
                         transitfeed.EncodeUnicode(b)))
-- 
2.43.0


From 8b97956620b53fca930bf2b3540e4c79ffa83157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:55 +0000
Subject: [PATCH 044/108] fix: do not invent a fare zone for merged stops that
 have none

---
 merge.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/merge.py b/merge.py
index 0f121f1..2acde7a 100755
--- a/merge.py
+++ b/merge.py
@@ -992,10 +992,11 @@ class StopMerger(DataSetMerger):
 
     # the zone_ids for merged stops can be preserved
     for (a, b, merged_stop) in self._merged:
-      assert a.zone_id == b.zone_id
-      fm.a_zone_map[a.zone_id] = a.zone_id
-      fm.b_zone_map[b.zone_id] = b.zone_id
-      merged_stop.zone_id = a.zone_id
+      if not util.IsEmpty(a.zone_id):
+        assert a.zone_id == b.zone_id
+        fm.a_zone_map[a.zone_id] = a.zone_id
+        fm.b_zone_map[b.zone_id] = b.zone_id
+        merged_stop.zone_id = a.zone_id
       if merged_stop.parent_station:
         # Merged stop has a parent. Update it to be the parent it had in b.
         parent_in_b = fm.b_schedule.GetStop(b.parent_station)
@@ -1031,8 +1032,11 @@ class StopMerger(DataSetMerger):
     """
     # for the unmerged stops, we use an already mapped zone_id if possible
     # if not, we generate a new one and add it to the map
+    # (a stop without zone stays without)
     for stop, migrated_stop in not_merged_stops:
-      if stop.zone_id in zone_map:
+      if util.IsEmpty(stop.zone_id):
+        pass
+      elif stop.zone_id in zone_map:
         migrated_stop.zone_id = zone_map[stop.zone_id]
       else:
         migrated_stop.zone_id = self.feed_merger.GenerateId(stop.zone_id)
-- 
2.43.0


From 78fe486315f5791d2aa197aa77072befe1f87076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:55 +0000
Subject: [PATCH 045/108] fix: do not generate merged zone ids that are already
 in use

---
 merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/merge.py b/merge.py
index 2acde7a..b78e655 100755
--- a/merge.py
+++ b/merge.py
@@ -1640,7 +1640,8 @@ class FeedMerger(object):
                     'trip_id': schedule.GetTripList(),
                     'service_id': schedule.GetServicePeriodList(),
                     'fare_id': schedule.GetFareAttributeList(),
-                    'shape_id': schedule.GetShapeList()}
+                    'shape_id': schedule.GetShapeList(),
+                    'zone_id': schedule.GetStopList()}
 
     max_postfix_number = 0
     for id_name, entity_list in id_data_sets.items():
-- 
2.43.0


From f5d8a9161bd35c49dc405413784809734e2189a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:55 +0000
Subject: [PATCH 046/108] fix: merge agencies whose agency_id is missing in one
 feed and empty in the other

---
 merge.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/merge.py b/merge.py
index b78e655..1bdb89b 100755
--- a/merge.py
+++ b/merge.py
@@ -838,6 +838,11 @@ class AgencyMerger(DataSetMerger):
     return schedule.GetAgencyList()
 
   def _GetById(self, schedule, agency_id):
+    if not agency_id:
+      # A missing agency_id (None) is the same as an empty one.
+      for agency in schedule.GetAgencyList():
+        if not agency.agency_id:
+          return agency
     return schedule.GetAgency(agency_id)
 
   def _MergeEntities(self, a, b):
-- 
2.43.0


From 8f494cbeecb175d639a7948aca96b8bf0f2ffe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:55 +0000
Subject: [PATCH 047/108] fix: merge transfers by default instead of dropping
 them

---
 merge.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/merge.py b/merge.py
index 1bdb89b..9e0a752 100755
--- a/merge.py
+++ b/merge.py
@@ -1740,6 +1740,7 @@ class FeedMerger(object):
     self.AddMerger(ShapeMerger(self))
     self.AddMerger(TripMerger(self))
     self.AddMerger(FareRuleMerger(self))
+    self.AddMerger(TransferMerger(self))
 
   def GetMerger(self, cls):
     """Looks for an added DataSetMerger derived from the given class.
-- 
2.43.0


From 303f460d61b43392f6fadd789a23d604a7be64b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:34 +0000
Subject: [PATCH 048/108] fix: escape values shown in the merge report page

---
 merge.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/merge.py b/merge.py
index 9e0a752..2be60ea 100755
--- a/merge.py
+++ b/merge.py
@@ -42,6 +42,7 @@ from __future__ import print_function
 __author__ = 'timothy.stranex@gmail.com (Timothy Stranex)'
 
 
+import cgi
 import datetime
 import optparse
 import os
@@ -186,7 +187,7 @@ class HTMLProblemAccumulator(transitfeed.ProblemAccumulatorInterface):
       self._error_count += 1
 
     problem_html = '<li>%s</li>' % (
-        merge_problem.FormatProblem().replace('\n', '<br>'))
+        cgi.escape(merge_problem.FormatProblem()).replace('\n', '<br>'))
     dataset_problems.setdefault(merge_problem.dataset_merger, []).append(
         problem_html)
 
@@ -271,6 +272,9 @@ class HTMLProblemAccumulator(transitfeed.ProblemAccumulatorInterface):
     items = []
     for e in self._notices:
       d = e.GetDictToFormat()
+      for k, v in d.items():
+        if isinstance(v, basestring):
+          d[k] = cgi.escape(v, True)
       if 'url' in d.keys():
         d['url'] = '<a href="%(url)s">%(url)s</a>' % d
       items.append('<li class="notice">%s</li>' %
@@ -296,7 +300,9 @@ class HTMLProblemAccumulator(transitfeed.ProblemAccumulatorInterface):
       html_merged_feed_path = ''
     else:
       html_merged_feed_path = '<p>Merged feed created: <code>%s</code></p>' % (
-          merged_feed_path)
+          cgi.escape(merged_feed_path))
+    old_feed_path = cgi.escape(old_feed_path)
+    new_feed_path = cgi.escape(new_feed_path)
 
     html_header = """<html>
 <head>
-- 
2.43.0


From 4f62bdbacc7703ce287c49d4b098787fdd3f3700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:09 +0000
Subject: [PATCH 049/108] fix: keep calendars valid when a cutoff removes all
 their dates

---
 merge.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/merge.py b/merge.py
index 2be60ea..4c9a345 100755
--- a/merge.py
+++ b/merge.py
@@ -1192,22 +1192,35 @@ class ServicePeriodMerger(DataSetMerger):
               is the same as used in the calendar.txt file.
     """
 
-    def TruncatePeriod(service_period, start, end):
+    def TruncatePeriod(service_period, start, end, edge):
       """Truncate the service period to into the range [start, end].
 
       Args:
         service_period: The service period to truncate.
         start: The start date as a string in YYYYMMDD format.
         end: The end date as a string in YYYYMMDD format.
+        edge: The date in the range that is next to the cutoff. A service
+              period of which nothing is left is placed there, without service.
       """
-      service_period.start_date = max(service_period.start_date, start)
-      service_period.end_date = min(service_period.end_date, end)
+      has_range = service_period.start_date and service_period.end_date
+      if has_range:
+        service_period.start_date = max(service_period.start_date, start)
+        service_period.end_date = min(service_period.end_date, end)
+        has_range = service_period.start_date <= service_period.end_date
       dates_to_delete = []
       for k in service_period.date_exceptions:
         if (k < start) or (k > end):
           dates_to_delete.append(k)
       for k in dates_to_delete:
         del service_period.date_exceptions[k]
+      if not has_range:
+        service_period.day_of_week = [False] * 7
+        if service_period.date_exceptions:
+          service_period.start_date = None
+          service_period.end_date = None
+        else:
+          service_period.start_date = edge
+          service_period.end_date = edge
 
     # find the date one day before cutoff
     year = int(cutoff[:4])
@@ -1218,9 +1231,9 @@ class ServicePeriodMerger(DataSetMerger):
     before = (cutoff_date - one_day_delta).strftime('%Y%m%d')
 
     for a in self.feed_merger.a_schedule.GetServicePeriodList():
-      TruncatePeriod(a, 0, before)
+      TruncatePeriod(a, '0', before, before)
     for b in self.feed_merger.b_schedule.GetServicePeriodList():
-      TruncatePeriod(b, cutoff, '9'*8)
+      TruncatePeriod(b, cutoff, '9'*8, cutoff)
 
   def CheckDisjointCalendars(self):
     """Check whether any old service periods intersect with any new ones.
-- 
2.43.0


From 673a62015a3843729ceee09f37988db4ba46d8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:25 +0000
Subject: [PATCH 050/108] fix: print problem contexts that are not ASCII

---
 transitfeed/problems.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transitfeed/problems.py b/transitfeed/problems.py
index 4e37f86..75ca6c0 100755
--- a/transitfeed/problems.py
+++ b/transitfeed/problems.py
@@ -476,13 +476,13 @@ class ExceptionWithContext(Exception):
     """Return a text string describing the context"""
     text = ''
     if hasattr(self, 'feed_name'):
-      text += "In feed '%s': " % self.feed_name
+      text += "In feed '%s': " % util.EncodeUnicode(self.feed_name)
     if hasattr(self, 'file_name'):
-      text += self.file_name
+      text += util.EncodeUnicode(self.file_name)
     if hasattr(self, 'row_num'):
       text += ":%i" % self.row_num
     if hasattr(self, 'column_name'):
-      text += " column %s" % self.column_name
+      text += " column %s" % util.EncodeUnicode(self.column_name)
     return text
 
   def __cmp__(self, y):
-- 
2.43.0


From 97954e07be8347b30b28502096ae336686c69f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:25 +0000
Subject: [PATCH 051/108] fix: escape values shown in the validation report
 page

---
 feedvalidator.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/feedvalidator.py b/feedvalidator.py
index 06de811..d6d0af9 100755
--- a/feedvalidator.py
+++ b/feedvalidator.py
@@ -22,6 +22,7 @@ For usage information run feedvalidator.py --help
 from __future__ import print_function
 
 import bisect
+import cgi
 import codecs
 import datetime
 from transitfeed.util import defaultdict
@@ -51,6 +52,14 @@ def UnCamelCase(camel):
   return re.sub(r'([a-z])([A-Z])', r'\1 \2', camel)
 
 
+def EscapeHtml(value):
+  """Return value safe to be included in HTML, as utf-8, if it is text."""
+  if isinstance(value, basestring):
+    return cgi.escape(transitfeed.EncodeUnicode(value), True)
+  else:
+    return value
+
+
 def ProblemCountText(error_count, warning_count):
   results = []
   if error_count:
@@ -298,6 +307,8 @@ class HTMLCountingProblemAccumulator(LimitPerTypeProblemAccumulator):
   def FormatException(self, e, output):
     """Append HTML version of e to list output."""
     d = e.GetDictToFormat()
+    for k, v in d.items():
+      d[k] = EscapeHtml(v)
     for k in ('file_name', 'feedname', 'column_name'):
       if k in d.keys():
         d[k] = '<code>%s</code>' % d[k]
@@ -317,7 +328,7 @@ class HTMLCountingProblemAccumulator(LimitPerTypeProblemAccumulator):
       else:
         line_str = ''
       output.append('in %s<code>%s</code><br>\n' %
-                    (line_str, transitfeed.EncodeUnicode(e.file_name)))
+                    (line_str, EscapeHtml(e.file_name)))
       row = e.row
       headers = e.headers
       column_name = e.column_name
@@ -327,8 +338,8 @@ class HTMLCountingProblemAccumulator(LimitPerTypeProblemAccumulator):
         attributes = ''
         if header == column_name:
           attributes = ' class="problem"'
-        table_header += '<th%s>%s</th>' % (attributes, header)
-        table_data += '<td%s>%s</td>' % (attributes, value)
+        table_header += '<th%s>%s</th>' % (attributes, EscapeHtml(header))
+        table_data += '<td%s>%s</td>' % (attributes, EscapeHtml(value))
       # Make sure output is encoded into UTF-8
       output.append('<table class="dump"><tr>%s</tr>\n' %
                     transitfeed.EncodeUnicode(table_header))
@@ -385,7 +396,8 @@ class HTMLCountingProblemAccumulator(LimitPerTypeProblemAccumulator):
     basename = os.path.basename(feed_location)
     feed_path = (feed_location[:feed_location.rfind(basename)], basename)
 
-    agencies = ', '.join(['<a href="%s">%s</a>' % (a.agency_url, a.agency_name)
+    agencies = ', '.join(['<a href="%s">%s</a>' % (EscapeHtml(a.agency_url),
+                                                   EscapeHtml(a.agency_name))
                           for a in schedule.GetAgencyList()])
     if not agencies:
       agencies = '?'
@@ -400,7 +412,7 @@ class HTMLCountingProblemAccumulator(LimitPerTypeProblemAccumulator):
           return time.strftime(dst_format,
                                time.strptime(yyyymmdd, src_format))
         except ValueError:
-          return yyyymmdd
+          return EscapeHtml(yyyymmdd)
 
       formatted_start = FormatDate(start)
       formatted_end = FormatDate(end)
@@ -460,8 +472,8 @@ FeedValidator extension used: %(extension)s
 <br>
 %(problem_summary)s
 <br><br>
-""" % { "feed_file": feed_path[1],
-        "feed_dir": feed_path[0],
+""" % { "feed_file": EscapeHtml(feed_path[1]),
+        "feed_dir": EscapeHtml(feed_path[0]),
         "agencies": agencies,
         "routes": len(schedule.GetRouteList()),
         "stops": len(schedule.GetStopList()),
-- 
2.43.0


From 9ad037f7d71c8caad958292890b4096e93ef3ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:42 +0000
Subject: [PATCH 052/108] fix: find the shortest path when a better way to an
 open node is found

---
 transitfeed/shapelib.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transitfeed/shapelib.py b/transitfeed/shapelib.py
index 5d6003b..f9645b3 100644
--- a/transitfeed/shapelib.py
+++ b/transitfeed/shapelib.py
@@ -475,6 +475,8 @@ class PolyGraph(PolyCollection):
     came_from = {} # Map to reconstruct optimal path once we're done.
     while open_set:
       (f_x, x) = heapq.heappop(open_heap)
+      if x in closed_set:
+        continue # Already evaluated with a smaller f(x).
       open_set.remove(x)
       if x == goal:
         return self._ReconstructPath(came_from, goal)
@@ -496,6 +498,8 @@ class PolyGraph(PolyCollection):
           heapq.heappush(open_heap, (f_y, y))
           tentative_is_better = True
         elif tentative_g_score < g_scores[y]:
+          h_y = y.GetDistanceMeters(goal)
+          heapq.heappush(open_heap, (tentative_g_score + h_y, y))
           tentative_is_better = True
         if tentative_is_better:
           came_from[y] = (x, edge)
-- 
2.43.0


From 0c6823853618219a201fe55901da5ed598adec45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:42 +0000
Subject: [PATCH 053/108] fix: keep the best paths when looking for a path
 along points

---
 transitfeed/shapelib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/shapelib.py b/transitfeed/shapelib.py
index f9645b3..916971a 100644
--- a/transitfeed/shapelib.py
+++ b/transitfeed/shapelib.py
@@ -614,4 +614,4 @@ class PolyGraph(PolyCollection):
         if len(heap) < keep_best_n:
           heapq.heappush(heap, new_item)
         else:
-          heapq.heapreplace(heap, new_item)
+          heapq.heappushpop(heap, new_item)
-- 
2.43.0


From 42502b123b329f54cbb2e61d3a004961bb7a1422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:42 +0000
Subject: [PATCH 054/108] fix: do not replace another shape when uniquifying
 the name of a variant

---
 transitfeed/shapelib.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/transitfeed/shapelib.py b/transitfeed/shapelib.py
index 916971a..bad34c9 100644
--- a/transitfeed/shapelib.py
+++ b/transitfeed/shapelib.py
@@ -404,7 +404,10 @@ class PolyCollection(object):
         print("  (Skipping as it apears to be an exact duplicate)")
       else:
         print("  (Adding new shape variant with uniquified name)")
-        inserted_name = "%s-%d" % (inserted_name, len(self._name_to_shape))
+        suffix = len(self._name_to_shape)
+        while "%s-%d" % (poly.GetName(), suffix) in self._name_to_shape:
+          suffix += 1
+        inserted_name = "%s-%d" % (inserted_name, suffix)
     self._name_to_shape[inserted_name] = poly
 
   def NumPolys(self):
-- 
2.43.0


From 8dd1dbd6515c41bb618a04ae181cb5ea58d24325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:01 +0000
Subject: [PATCH 055/108] fix: find paths of more than a thousand polylines

---
 transitfeed/shapelib.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/transitfeed/shapelib.py b/transitfeed/shapelib.py
index bad34c9..f2dc66b 100644
--- a/transitfeed/shapelib.py
+++ b/transitfeed/shapelib.py
@@ -523,14 +523,15 @@ class PolyGraph(PolyCollection):
       A Poly that represents the path through the graph from the start of the
       search to current_node.
     """
-    if current_node in came_from:
+    edges = []
+    while current_node in came_from:
       (previous_node, previous_edge) = came_from[current_node]
       if previous_edge.GetPoint(0) == current_node:
         previous_edge = previous_edge.Reversed()
-      p = self._ReconstructPath(came_from, previous_node)
-      return Poly.MergePolys([p, previous_edge], merge_point_threshold=0)
-    else:
-      return Poly([], '')
+      edges.append(previous_edge)
+      current_node = previous_node
+    edges.append(Poly([], ''))
+    return Poly.MergePolys(edges[::-1], merge_point_threshold=0)
 
   def FindShortestMultiPointPath(self, points, max_radius=150, keep_best_n=10,
                                  verbosity=0):
-- 
2.43.0


From 7bea74f6639ac264c94f32a18d21f93b0126d00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:24 +0000
Subject: [PATCH 056/108] fix: make SortListOfTripByTime callable

---
 transitfeed/trip.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/trip.py b/transitfeed/trip.py
index c59d6ef..4fb2f42 100755
--- a/transitfeed/trip.py
+++ b/transitfeed/trip.py
@@ -783,4 +783,4 @@ class Trip(GtfsObjectBase):
 
 
 def SortListOfTripByTime(trips):
-  trips.sort(key=GetStartTime)
+  trips.sort(key=lambda trip: trip.GetStartTime())
-- 
2.43.0


From 17f9d42acd5408459167ae8da7c7ad621d2acc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:24 +0000
Subject: [PATCH 057/108] fix: answer routerow queries of the schedule viewer

---
 schedule_viewer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schedule_viewer.py b/schedule_viewer.py
index 0ac217c..e2a8210 100755
--- a/schedule_viewer.py
+++ b/schedule_viewer.py
@@ -279,7 +279,8 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
   def handle_json_GET_routerow(self, params):
     schedule = self.server.schedule
     route = schedule.GetRoute(params.get('route', None))
-    return [transitfeed.Route._FIELD_NAMES, route.GetFieldValuesTuple()]
+    field_names = transitfeed.Route._FIELD_NAMES
+    return [field_names, [route[name] for name in field_names]]
 
   def handle_json_GET_triprows(self, params):
     """Return a list of rows from the feed file that are related to this
-- 
2.43.0


From 7d522b6bee581b0239913b4c16abd30eec64e56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:24 +0000
Subject: [PATCH 058/108] fix: show the next trips of the date when many others
 follow first

---
 schedule_viewer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/schedule_viewer.py b/schedule_viewer.py
index e2a8210..c8092c5 100755
--- a/schedule_viewer.py
+++ b/schedule_viewer.py
@@ -376,10 +376,9 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
 
     time_trips = stop.GetStopTimeTrips(schedule)
     time_trips.sort()  # OPT: use bisect.insort to make this O(N*ln(N)) -> O(N)
-    # Keep the first 5 after param 'time'.
+    # Keep the first 5 after param 'time' that run on param 'date'.
     # Need make a tuple to find correct bisect point
     time_trips = time_trips[bisect.bisect_left(time_trips, (time, 0)):]
-    time_trips = time_trips[:5]
     # TODO: combine times for a route to show next 2 departure times
     result = []
     for time, (trip, index), tp in time_trips:
@@ -387,6 +386,8 @@ class ScheduleRequestHandler(BaseHTTPServer.BaseHTTPRequestHandler):
       service_period = schedule.GetServicePeriod(service_id)
       if date and not service_period.IsActiveOn(date):
         continue
+      if len(result) == 5:
+        break
       headsign = None
       # Find the most recent headsign from the StopTime objects
       for stoptime in trip.GetStopTimes()[index::-1]:
-- 
2.43.0


From 94ec4b99707010b8558dd313c9fb41bb9365f1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:05 +0000
Subject: [PATCH 059/108] fix: close the KML file that was opened for writing

---
 kmlwriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kmlwriter.py b/kmlwriter.py
index 34163d9..4f45d41 100755
--- a/kmlwriter.py
+++ b/kmlwriter.py
@@ -730,6 +730,8 @@ class KMLWriter(object):
       output = open(output_file, 'w')
     output.write("""<?xml version="1.0" encoding="UTF-8"?>\n""")
     ET.ElementTree(root).write(output, 'utf-8')
+    if output is not output_file:
+      output.close()
 
 
 def main():
-- 
2.43.0


From f2cbf940c8e34f370e0c0db552ab803b149fa67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:05 +0000
Subject: [PATCH 060/108] fix: read KML texts in CDATA sections and around
 comments

---
 kmlparser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kmlparser.py b/kmlparser.py
index 993a852..770fd13 100755
--- a/kmlparser.py
+++ b/kmlparser.py
@@ -98,10 +98,10 @@ class KmlParser(object):
     return ret
 
   def ExtractText(self, node):
-    for child in node.childNodes:
-      if child.nodeType == child.TEXT_NODE:
-        return child.wholeText  # is a unicode string
-    return ""
+    return "".join(child.data  # is a unicode string
+                   for child in node.childNodes
+                   if child.nodeType in (child.TEXT_NODE,
+                                         child.CDATA_SECTION_NODE))
 
   def ExtractCoordinates(self, node):
     coordinatesText = ""
-- 
2.43.0


From 28d4a0cca77f2d98aa00a29ae941f147573cb5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:05 +0000
Subject: [PATCH 061/108] fix: import KML lines whose made up shape_id is
 already in use

---
 kmlparser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kmlparser.py b/kmlparser.py
index 770fd13..a5e5dcf 100755
--- a/kmlparser.py
+++ b/kmlparser.py
@@ -130,7 +130,11 @@ class KmlParser(object):
 
       # If the shape has different points, we need to modify our shape id so as
       # to avoid duplication.
-      shape.shape_id += '_%d' % len(feed.GetShapeList())
+      suffix = len(feed.GetShapeList())
+      while '%s_%d' % (p.name, suffix) in [s.shape_id
+                                           for s in feed.GetShapeList()]:
+        suffix += 1
+      shape.shape_id += '_%d' % suffix
 
     except KeyError:
       # No existing shape with that id, so no worries.
-- 
2.43.0


From 1845ae7f3e4139edb7464b7fc34eaaf376b03298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:23 +0000
Subject: [PATCH 062/108] fix: make IsValidLanguageCode of the googletransit
 extension callable

---
 extensions/googletransit/extension_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensions/googletransit/extension_util.py b/extensions/googletransit/extension_util.py
index 7f93bbc..3e348c3 100644
--- a/extensions/googletransit/extension_util.py
+++ b/extensions/googletransit/extension_util.py
@@ -27,8 +27,8 @@ def IsValidLanguageCode(lang):
     - checks whether the code, as lower case, is well formed and valid BCP47
       using the pybcp47 module
   """
-  bcp47_obj = parser.ParseLanguage(str(lang.lower()))
-  return bcp47_obj.IsWellformed() and bcp47_obj.IsValid()
+  bcp47_obj = parser.ParseLanguage(lang)
+  return bcp47_obj.wellformed and bcp47_obj.valid
 
 def ValidateLanguageCode(lang, column_name=None, problems=None):
   """
-- 
2.43.0


From 7e192516be8b3f4840bc93b89d54c4eee4d3049c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:23 +0000
Subject: [PATCH 063/108] fix: report language codes that are not ASCII as not
 well-formed

---
 extensions/googletransit/extension_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/googletransit/extension_util.py b/extensions/googletransit/extension_util.py
index 3e348c3..36cfefc 100644
--- a/extensions/googletransit/extension_util.py
+++ b/extensions/googletransit/extension_util.py
@@ -43,7 +43,7 @@ def ValidateLanguageCode(lang, column_name=None, problems=None):
   """
   if util.IsEmpty(lang):
     return True
-  bcp47_obj = parser.ParseLanguage(str(lang.lower()))
+  bcp47_obj = parser.ParseLanguage(lang)
   if not bcp47_obj.wellformed:
     if problems:
       problems.InvalidValue(column_name, lang,
-- 
2.43.0


From 49de569f0c8bb2fed827fd595545767c291babf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:23 +0000
Subject: [PATCH 064/108] fix: accept private use subtags of language tags in
 upper case

---
 extensions/googletransit/pybcp47/bcp47languageparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/googletransit/pybcp47/bcp47languageparser.py b/extensions/googletransit/pybcp47/bcp47languageparser.py
index 289dff2..20ebc52 100644
--- a/extensions/googletransit/pybcp47/bcp47languageparser.py
+++ b/extensions/googletransit/pybcp47/bcp47languageparser.py
@@ -231,7 +231,7 @@ class Bcp47LanguageParser(object):
 
   # Private subtag consisting of the subtag "x" followed by 1..n subtags of
   # 1 to 8 characters.
-  _wellformed_dict['private'] = "x(-([a-zA-Z0-9]{1,8}))+"
+  _wellformed_dict['private'] = "[xX](-([a-zA-Z0-9]{1,8}))+"
 
   # Full BCP-47 wellformed regular expression.
   _wellformed_bcp47 = re.compile(
-- 
2.43.0


From bbc97c8da766ffdc4ef978efce142900f4a9d167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:23 +0000
Subject: [PATCH 065/108] fix: do not call a language tag without a first
 subtag well-formed

---
 extensions/googletransit/pybcp47/bcp47languageparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensions/googletransit/pybcp47/bcp47languageparser.py b/extensions/googletransit/pybcp47/bcp47languageparser.py
index 20ebc52..3232154 100644
--- a/extensions/googletransit/pybcp47/bcp47languageparser.py
+++ b/extensions/googletransit/pybcp47/bcp47languageparser.py
@@ -256,7 +256,7 @@ class Bcp47LanguageParser(object):
     if lang_code.lower() in self.grandfathereds:
       return True
     match_obj = self._wellformed_bcp47.match(lang_code)
-    if not match_obj:
+    if not match_obj or lang_code[:1] in ('', '-'):
       return False
     elif match_obj.group(0) != lang_code:
       return False
-- 
2.43.0


From 5b3da4188f3acc754bb8b18b78f199c1339db0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:07 +0000
Subject: [PATCH 066/108] fix: do not take other characters for ASCII letters
 in language tags

---
 extensions/googletransit/pybcp47/bcp47languageparser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/extensions/googletransit/pybcp47/bcp47languageparser.py b/extensions/googletransit/pybcp47/bcp47languageparser.py
index 3232154..bf93e57 100644
--- a/extensions/googletransit/pybcp47/bcp47languageparser.py
+++ b/extensions/googletransit/pybcp47/bcp47languageparser.py
@@ -253,6 +253,8 @@ class Bcp47LanguageParser(object):
     return False
 
   def IsWellformed(self, lang_code):
+    if re.search("[^a-zA-Z0-9-]", lang_code):
+      return False
     if lang_code.lower() in self.grandfathereds:
       return True
     match_obj = self._wellformed_bcp47.match(lang_code)
@@ -348,6 +350,8 @@ class Bcp47LanguageParser(object):
 
   def Parse_ISO639_1_Language(self, lang_code):
     lang_obj = Bcp47LanguageObject(lang_code)
+    if re.search("[^a-zA-Z]", lang_code):
+      return lang_obj
 
     lang_code = lang_code.lower()
     if len(lang_code) == 2:
-- 
2.43.0


From 79d12f7088552cfe1c728327b1ab8fa45f6f3723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:07 +0000
Subject: [PATCH 067/108] fix: check all variants and extended language subtags
 of language tags

---
 .../pybcp47/bcp47languageparser.py              | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/extensions/googletransit/pybcp47/bcp47languageparser.py b/extensions/googletransit/pybcp47/bcp47languageparser.py
index bf93e57..e302f62 100644
--- a/extensions/googletransit/pybcp47/bcp47languageparser.py
+++ b/extensions/googletransit/pybcp47/bcp47languageparser.py
@@ -296,16 +296,16 @@ class Bcp47LanguageParser(object):
       return lang_obj.Update(None, True, True)
 
     extlang_tag = lang_code_parts[lang_code_part_idx]
-    if self.IsWellformedSubtag(extlang_tag, "extlang"):
+    while self.IsWellformedSubtag(extlang_tag, "extlang"):
       if extlang_tag in self.extlangs:
         lang_obj.descriptions.append(self.extlangs[extlang_tag])
       else:
         return lang_obj.Update("unknown extlang \'" + extlang_tag + "\'",
                               True, False)
       lang_code_part_idx = lang_code_part_idx + 1
-
-    if lang_code_part_idx == lang_code_part_len:
-      return lang_obj.Update(None, True, True)
+      if lang_code_part_idx == lang_code_part_len:
+        return lang_obj.Update(None, True, True)
+      extlang_tag = lang_code_parts[lang_code_part_idx]
 
     script_tag = lang_code_parts[lang_code_part_idx]
     if self.IsWellformedSubtag(script_tag, "script"):
@@ -332,13 +332,20 @@ class Bcp47LanguageParser(object):
       return lang_obj.Update(None, True, True)
 
     variant_tag = lang_code_parts[lang_code_part_idx]
-    if self.IsWellformedSubtag(variant_tag, "variant"):
+    first_variant_idx = lang_code_part_idx
+    while self.IsWellformedSubtag(variant_tag, "variant"):
+      if variant_tag in lang_code_parts[first_variant_idx:lang_code_part_idx]:
+        return lang_obj.Update("repeated variant \'" + variant_tag + "\'",
+                              True, False)
       if variant_tag in self.variants:
         lang_obj.descriptions.append(self.variants[variant_tag])
       else:
         return lang_obj.Update("unknown variant \'" + variant_tag + "\'",
                               True, False)
       lang_code_part_idx = lang_code_part_idx + 1
+      if lang_code_part_idx == lang_code_part_len:
+        return lang_obj.Update(None, True, True)
+      variant_tag = lang_code_parts[lang_code_part_idx]
 
     if lang_code_part_len > lang_code_part_idx:
       remainder = "-".join(lang_code_parts[lang_code_part_idx:])
-- 
2.43.0


From 5364094429dcade652aef2a307cb27b4828dcc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:07 +0000
Subject: [PATCH 068/108] fix: do not call a language tag with a repeated
 extension valid

---
 extensions/googletransit/pybcp47/bcp47languageparser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/extensions/googletransit/pybcp47/bcp47languageparser.py b/extensions/googletransit/pybcp47/bcp47languageparser.py
index e302f62..8b8ae0d 100644
--- a/extensions/googletransit/pybcp47/bcp47languageparser.py
+++ b/extensions/googletransit/pybcp47/bcp47languageparser.py
@@ -348,6 +348,15 @@ class Bcp47LanguageParser(object):
       variant_tag = lang_code_parts[lang_code_part_idx]
 
     if lang_code_part_len > lang_code_part_idx:
+      singletons = set()
+      for subtag in lang_code_parts[lang_code_part_idx:]:
+        if subtag == 'x':
+          break
+        if len(subtag) == 1:
+          if subtag in singletons:
+            return lang_obj.Update("repeated extension \'" + subtag + "\'",
+                                  True, False)
+          singletons.add(subtag)
       remainder = "-".join(lang_code_parts[lang_code_part_idx:])
       if len(remainder) > 0:
         return lang_obj.Update("subtag \'"+remainder+"\' was ignored", True,
-- 
2.43.0


From fa1ac0a7e139495c26fe8acaaef1209d4fabaf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:34 +0000
Subject: [PATCH 069/108] fix: load all files that share a loading order

---
 transitfeed/gtfsfactory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/transitfeed/gtfsfactory.py b/transitfeed/gtfsfactory.py
index 76528b0..bebce87 100644
--- a/transitfeed/gtfsfactory.py
+++ b/transitfeed/gtfsfactory.py
@@ -127,12 +127,12 @@ class GtfsFactory(object):
   def GetLoadingOrder(self):
     """Returns a list of filenames sorted by loading order.
     Only includes files that Loader's standardized loading knows how to load"""
-    result = {}
+    result = []
     for filename, mapping in self._file_mapping.iteritems():
       loading_order = mapping['loading_order']
       if loading_order is not None:
-        result[loading_order] = filename
-    return list(result[key] for key in sorted(result))
+        result.append((loading_order, filename))
+    return list(filename for loading_order, filename in sorted(result))
 
   def IsFileRequired(self, filename):
     """Returns true if a file is required by GTFS, false otherwise.
-- 
2.43.0


From d2bfe1373e54817f73bf11f82fe7ce0e25435fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:34 +0000
Subject: [PATCH 070/108] fix: do not share a file mapping between factories

---
 transitfeed/gtfsfactory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/gtfsfactory.py b/transitfeed/gtfsfactory.py
index bebce87..9074d43 100644
--- a/transitfeed/gtfsfactory.py
+++ b/transitfeed/gtfsfactory.py
@@ -171,7 +171,7 @@ class GtfsFactory(object):
         raise problems.InvalidMapping(field)
     if filename in self.GetKnownFilenames():
       raise problems.DuplicateMapping(filename)
-    self._file_mapping[filename] = new_mapping
+    self._file_mapping[filename] = dict(new_mapping)
 
   def UpdateMapping(self, filename, mapping_update):
     """Updates an entry in the list of known filenames.
-- 
2.43.0


From cbe50bae17d0d9b63ea66c9c32dfe367b7f68f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:34 +0000
Subject: [PATCH 071/108] fix: let the loaded schedule use the factory of its
 loader

---
 transitfeed/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index b1c7ed0..5e63940 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -56,7 +56,8 @@ class Loader:
 
     if not schedule:
       schedule = gtfs_factory.Schedule(problem_reporter=problems,
-          memory_db=memory_db, check_duplicate_trips=check_duplicate_trips)
+          memory_db=memory_db, check_duplicate_trips=check_duplicate_trips,
+          gtfs_factory=gtfs_factory)
 
     self._extra_validation = extra_validation
     self._schedule = schedule
-- 
2.43.0


From 440de441a9bc26250443a0289b67e96acebc3301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:55 +0000
Subject: [PATCH 072/108] fix: report blank and padded header cells in all
 files

---
 transitfeed/loader.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 5e63940..24bc88a 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -317,9 +317,24 @@ class Loader:
     row_num, header = next(rows, (0, None))
     if row_num != 1:  # The header could not be read
       return
+    raw_header = header
     header = map(lambda x: x.strip(), header)  # trim any whitespace
     header_occurrences = util.defaultdict(lambda: 0)
-    for column_header in header:
+    for raw_column_header, column_header in zip(raw_header, header):
+      if not column_header:
+        self._problems.CsvSyntax(
+            description="The header row should not contain any blank values. "
+                        "The corresponding column will be skipped for the "
+                        "entire file.",
+            context=(file_name, 1, [''] * len(raw_header), raw_header),
+            type=problems.TYPE_ERROR)
+        continue
+      elif raw_column_header != column_header:
+        self._problems.CsvSyntax(
+            description="The header row should not contain any "
+                        "space characters.",
+            context=(file_name, 1, [''] * len(raw_header), raw_header),
+            type=problems.TYPE_WARNING)
       header_occurrences[column_header] += 1
 
     for name, count in header_occurrences.items():
@@ -332,7 +347,7 @@ class Loader:
     # check for unrecognized columns, which are often misspellings
     header_context = (file_name, 1, [''] * len(header), header)
     valid_cols = cols + [deprecated_name for (deprecated_name, _) in deprecated]
-    unknown_cols = set(header).difference(set(valid_cols))
+    unknown_cols = set(header).difference(set(valid_cols)) - set([''])
     for col in unknown_cols:
       # this is provided in order to create a nice colored list of
       # columns in the validator output
-- 
2.43.0


From 46e400ae4240fdbecfd1593c0a5a13944df5aae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:36 +0000
Subject: [PATCH 073/108] fix: report duplicate columns at the header and not
 at a row of another file

---
 transitfeed/loader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 24bc88a..80b144c 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -214,7 +214,8 @@ class Loader:
         self._problems.DuplicateColumn(
             header=name,
             file_name=file_name,
-            count=count)
+            count=count,
+            context=(file_name, 1, [''] * len(header), header))
 
     self._schedule._table_columns[table_name] = header
 
@@ -342,7 +343,8 @@ class Loader:
         self._problems.DuplicateColumn(
             header=name,
             file_name=file_name,
-            count=count)
+            count=count,
+            context=(file_name, 1, [''] * len(header), header))
 
     # check for unrecognized columns, which are often misspellings
     header_context = (file_name, 1, [''] * len(header), header)
-- 
2.43.0


From e0f39aeae2a6c290a400076c2f89e38b24d5ffa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:24 +0000
Subject: [PATCH 074/108] fix: match the whole of an email address

ValidateEmail accepted anything that started like an address, such as
"a@b.c@d" or "a@b.c, d@e.f".
---
 transitfeed/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/transitfeed/util.py b/transitfeed/util.py
index 9c3dcf1..f641c04 100644
--- a/transitfeed/util.py
+++ b/transitfeed/util.py
@@ -275,7 +275,7 @@ def ValidateEmail(email, column_name=None, problems=None):
     - then contains a single dot
     - then again matches any string after dot.
   """
-  if IsEmpty(email) or re.match(r'[^@]+@[^@]+\.[^@]+', email):
+  if IsEmpty(email) or re.match(r'[^@]+@[^@]+\.[^@]+\Z', email):
     return True
   else:
     if problems:
-- 
2.43.0


From b3064201b3586f15a358c3c41bac7b9c6584969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:24 +0000
Subject: [PATCH 075/108] fix: accept the current currency codes of ISO 4217

The fares of feeds of Ghana, Belarus, Zambia and others were reported to have
an invalid currency_type.
---
 transitfeed/util.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transitfeed/util.py b/transitfeed/util.py
index f641c04..ffeaa99 100644
--- a/transitfeed/util.py
+++ b/transitfeed/util.py
@@ -729,5 +729,10 @@ class ISO4217(object):
     'XBD': 958, 'XCD': 951, 'XDR': 960, 'XFO': None, 'XFU': None, 'XOF': 952,
     'XPD': 964, 'XPF': 953, 'XPT': 962, 'XTS': 963, 'XXX': 999, 'YER': 886,
     'ZAR': 710, 'ZMK': 894, 'ZWD': 716,
+    # Currencies that were left out or introduced later
+    'BYN': 933, 'CUC': 931, 'GHS': 936, 'MRU': 929, 'SLE': 925, 'SSP': 728,
+    'STN': 930, 'SVC': 222, 'TMT': 934, 'UYI': 940, 'UYW': 927, 'VED': 926,
+    'VEF': 937, 'VES': 928, 'XSU': 994, 'XUA': 965, 'ZMW': 967, 'ZWG': 924,
+    'ZWL': 932,
   }
 
-- 
2.43.0


From 28858ee2a77c9e6bb939a8808e0ae707a9e38387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:24 +0000
Subject: [PATCH 076/108] fix: report fare prices that are not finite numbers

float() takes "nan" and "inf", which were accepted as prices.
---
 transitfeed/fareattribute.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transitfeed/fareattribute.py b/transitfeed/fareattribute.py
index 712031d..e0cf83d 100755
--- a/transitfeed/fareattribute.py
+++ b/transitfeed/fareattribute.py
@@ -15,6 +15,7 @@
 # limitations under the License.
 
 from __future__ import absolute_import
+import math
 from .gtfsobjectbase import GtfsObjectBase
 from .problems import default_problem_reporter
 from . import util
@@ -109,7 +110,7 @@ class FareAttribute(GtfsObjectBase):
       problems.MissingValue("price")
     elif not isinstance(self.price, float) and not isinstance(self.price, int):
       problems.InvalidValue("price", self.price)
-    elif self.price < 0:
+    elif self.price < 0 or math.isnan(self.price) or math.isinf(self.price):
       problems.InvalidValue("price", self.price)
 
   def ValidateCurrencyType(self, problems):
-- 
2.43.0


From f54359169e55d6d5479ca3a0c0a868016f44399e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:24 +0000
Subject: [PATCH 077/108] fix: report shape_dist_traveled of stop times that is
 not a finite number

float() takes "nan" and "inf", which were accepted as distances.
---
 transitfeed/stoptime.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/transitfeed/stoptime.py b/transitfeed/stoptime.py
index 65005d9..1f1db02 100755
--- a/transitfeed/stoptime.py
+++ b/transitfeed/stoptime.py
@@ -16,6 +16,8 @@
 
 from __future__ import absolute_import
 
+import math
+
 from . import problems as problems_module
 from .stop import Stop
 from . import util
@@ -155,7 +157,10 @@ class StopTime(object):
       self.shape_dist_traveled = None
     else:
       try:
-        self.shape_dist_traveled = float(shape_dist_traveled)
+        distance = float(shape_dist_traveled)
+        if math.isnan(distance) or math.isinf(distance):
+          raise ValueError()
+        self.shape_dist_traveled = distance
       except ValueError:
         problems.InvalidValue('shape_dist_traveled', shape_dist_traveled)
 
-- 
2.43.0


From 69a3960fb74557662e9bd54c1fde61fb2163e10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:30 +0000
Subject: [PATCH 078/108] fix: know the fare zones of stops that are set after
 adding the stop

---
 transitfeed/stop.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transitfeed/stop.py b/transitfeed/stop.py
index 4e5e162..39c2032 100755
--- a/transitfeed/stop.py
+++ b/transitfeed/stop.py
@@ -146,6 +146,11 @@ class Stop(GtfsObjectBase):
     else:
       return super(Stop, self).__getattr__(name)
 
+  def __setattr__(self, name, value):
+    super(Stop, self).__setattr__(name, value)
+    if name == 'zone_id' and value and self._schedule:
+      self._schedule.fare_zones[value] = True
+
   def ValidateStopLatitude(self, problems):
     if self.stop_lat is not None:
       value = self.stop_lat
-- 
2.43.0


From a970c03bc0e3193b2fd7789e49f22f7d32e84f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:59 +0000
Subject: [PATCH 079/108] fix: keep the stations of used stops when filtering
 unused stops

---
 examples/filter_unused_stops.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/examples/filter_unused_stops.py b/examples/filter_unused_stops.py
index 461597c..eef945a 100755
--- a/examples/filter_unused_stops.py
+++ b/examples/filter_unused_stops.py
@@ -44,8 +44,14 @@ def main():
 
   print("Removing unused stops...")
   removed = 0
+  used = set()
   for stop_id, stop in schedule.stops.items():
-    if not stop.GetTrips(schedule):
+    if stop.GetTrips(schedule):
+      used.add(stop_id)
+      # The station of a used stop is needed as well
+      used.add(stop.parent_station)
+  for stop_id, stop in schedule.stops.items():
+    if stop_id not in used:
       removed += 1
       del schedule.stops[stop_id]
       if options.list_removed:
-- 
2.43.0


From 5e21034652e05b20b36998023299d17353eeb5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:47 +0000
Subject: [PATCH 080/108] fix: skip the UTF-8 signature of tables when
 upgrading translations

---
 upgrade_translations.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/upgrade_translations.py b/upgrade_translations.py
index 4cd7587..017ba40 100755
--- a/upgrade_translations.py
+++ b/upgrade_translations.py
@@ -68,6 +68,7 @@ Translations in GTFS-Translations format.
 
 from __future__ import print_function
 
+import codecs
 import csv
 import os
 import os.path
@@ -159,12 +160,21 @@ class RecordIdHelper(object):
         return None
 
 
+def open_table(filename):
+    """Opens a CSV table for reading, after its UTF-8 signature if it has one.
+    """
+    csvfile = open(filename, 'rb')
+    if csvfile.read(len(codecs.BOM_UTF8)) != codecs.BOM_UTF8:
+        csvfile.seek(0)
+    return csvfile
+
+
 def read_first_available_value(filename, field_name):
     """Reads the first assigned value of the given field in the CSV table.
     """
     if not os.path.exists(filename):
         return None
-    with open(filename, 'rb') as csvfile:
+    with open_table(filename) as csvfile:
         reader = csv.DictReader(csvfile)
         for row in reader:
             value = row.get(field_name)
@@ -212,8 +222,8 @@ class OldTranslations(object):
         print('Reading original translations')
         self.translations_map = {}
         n_translations = 0
-        with open(os.path.join(self.src_dir, 'translations.txt'),
-                  'rb') as csvfile:
+        with open_table(
+                os.path.join(self.src_dir, 'translations.txt')) as csvfile:
             reader = csv.DictReader(csvfile)
             for row in reader:
                 self.translations_map.setdefault(
@@ -294,7 +304,7 @@ class TranslationsConverter(object):
             raise Exception('No %s' % table_name)
 
         out_filename = os.path.join(dest_dir, '%s.txt' % table_name)
-        with open(in_filename, 'rb') as in_file:
+        with open_table(in_filename) as in_file:
             reader = csv.DictReader(in_file)
             if not reader.fieldnames or not any_translatable_field(
                     reader.fieldnames):
-- 
2.43.0


From 45ab357514ee12814f47fd26b9affb0a53b10ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:47 +0000
Subject: [PATCH 081/108] fix: upgrade translations of tables without ids by
 field value

---
 upgrade_translations.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/upgrade_translations.py b/upgrade_translations.py
index 017ba40..35c4ac2 100755
--- a/upgrade_translations.py
+++ b/upgrade_translations.py
@@ -343,12 +343,17 @@ class TableTranslator(object):
         # e.g., the same trip_headsign is translated differently for
         # different trips.
         self.table_uses_record_id = table_name not in ('stop_times', 'trips')
+        # The only row of feed_info.txt needs no record_id, but the rows of
+        # other tables without one can only be told apart by field_value.
+        self.table_has_record_id = (
+            table_name == 'feed_info' or
+            self.record_id_helper.id_and_sub_id[0] is not None)
         self.translations_for_values = {}
 
         print('Translating %s by %s' % (
             table_name,
             self.record_id_helper.describe_ids()
-            if self.table_uses_record_id
+            if self.table_uses_record_id and self.table_has_record_id
             else 'field_name'))
 
     def translate_row(self, row):
@@ -366,7 +371,7 @@ class TableTranslator(object):
             value_in_feed_lang = field_translations[feed_language]
             out_row[field_name] = value_in_feed_lang
             # If translation depends on the context, then always use record_id.
-            use_record_id = (
+            use_record_id = self.table_has_record_id and (
                 self.table_uses_record_id or
                 value_in_feed_lang in context_dependent_names)
             record_id = self.record_id_helper.get_record_id(row)
-- 
2.43.0


From 2340ad307c66aabc2604fdda41cd8f7ad8941a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:29 +0000
Subject: [PATCH 082/108] fix: skip the UTF-8 signature of tables when
 visualizing pathways

---
 visualize_pathways.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/visualize_pathways.py b/visualize_pathways.py
index 8cb93d1..e8aecba 100755
--- a/visualize_pathways.py
+++ b/visualize_pathways.py
@@ -42,6 +42,7 @@ from __future__ import print_function
 
 from enum import Enum
 import argparse
+import codecs
 import csv
 import re
 import os
@@ -193,6 +194,9 @@ class GtfsReader(object):
     def _read_table(self, table, entity_type):
         entities = {}
         with open(os.path.join(self.gtfs_dir, '%s.txt' % table), 'rb') as f:
+            # Skip the UTF-8 signature
+            if f.read(len(codecs.BOM_UTF8)) != codecs.BOM_UTF8:
+                f.seek(0)
             reader = csv.DictReader(f)
             for row in reader:
                 entity = entity_type(row, self)
-- 
2.43.0


From 124c9a920589e999f064ee4f8a732cf81c4db7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:29 +0000
Subject: [PATCH 083/108] fix: quote keywords and escape backslashes in the
 pathway graph

---
 visualize_pathways.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/visualize_pathways.py b/visualize_pathways.py
index e8aecba..19552f3 100755
--- a/visualize_pathways.py
+++ b/visualize_pathways.py
@@ -205,12 +205,16 @@ class GtfsReader(object):
 
 
 _VALID_GRAPHVIZ_ID = re.compile(r'^[A-Za-z_][A-Za-z0-9_]+$')
+_GRAPHVIZ_KEYWORDS = (
+    'node', 'edge', 'graph', 'digraph', 'subgraph', 'strict')
 
 
 def escape_graphviz_id(gtfs_id):
-    if _VALID_GRAPHVIZ_ID.match(gtfs_id):
+    if (_VALID_GRAPHVIZ_ID.match(gtfs_id) and
+            gtfs_id.lower() not in _GRAPHVIZ_KEYWORDS):
         return gtfs_id
-    return '"%s"' % gtfs_id.replace('"', r'\"')
+    return '"%s"' % gtfs_id.replace(
+        '\\', r'\\').replace('"', r'\"').replace('\n', r'\n')
 
 
 def truncate_string(s, max_length=20):
@@ -365,20 +369,20 @@ def location_shape(location_type):
 def location_label(location, max_length=20):
     label = location.gtfs_id
     if location.platform_code:
-        label += '\\nPlatform %s' % location.platform_code
+        label += '\nPlatform %s' % location.platform_code
     elif location.signposted_as:
-        label += '\\n%s' % location.signposted_as
+        label += '\n%s' % location.signposted_as
     elif location.name:
-        label += '\\n%s' % truncate_string(location.name, max_length)
+        label += '\n%s' % truncate_string(location.name, max_length)
     return label
 
 
 def pathway_label(pathway):
     label = pathway.mode.name
     if pathway.signposted_as:
-        label += '\\n%s' % truncate_string(pathway.signposted_as)
+        label += '\n%s' % truncate_string(pathway.signposted_as)
     if pathway.reversed_signposted_as:
-        label += '\\n%s' % truncate_string(pathway.reversed_signposted_as)
+        label += '\n%s' % truncate_string(pathway.reversed_signposted_as)
     return label
 
 
-- 
2.43.0


From 08e353dece00c7257e77cce1b296a207b34cf2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:29 +0000
Subject: [PATCH 084/108] fix: draw boarding areas of platforms without station

---
 visualize_pathways.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/visualize_pathways.py b/visualize_pathways.py
index 19552f3..011abd0 100755
--- a/visualize_pathways.py
+++ b/visualize_pathways.py
@@ -460,7 +460,9 @@ def gtfs_to_graphviz(gtfs, stop_ids=None):
             location_color(location.location_type),
             location_shape(location.location_type))
         cluster = graph.get_cluster(location.station().gtfs_id)
-        if location.location_type == LocationType.boarding_area:
+        # A platform without station is a cluster of its own
+        if (location.location_type == LocationType.boarding_area and
+                location.parent_id != cluster.id):
             cluster = cluster.get_cluster(location.parent_id)
         cluster.nodes.append(node)
 
-- 
2.43.0


From 7df20953f95c087f868964c0ea0a4006a7d93890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:01 +0000
Subject: [PATCH 085/108] fix: draw trips of any id in Marey graphs

---
 gtfsscheduleviewer/marey_graph.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gtfsscheduleviewer/marey_graph.py b/gtfsscheduleviewer/marey_graph.py
index 8113696..5661329 100644
--- a/gtfsscheduleviewer/marey_graph.py
+++ b/gtfsscheduleviewer/marey_graph.py
@@ -35,7 +35,9 @@ http://transliteracies.english.ucsb.edu/post/research-project/research-clearingh
 from __future__ import print_function
 
 import itertools
+from xml.sax import saxutils
 import transitfeed
+from transitfeed import util
 
 
 class MareyGraph:
@@ -335,10 +337,12 @@ class MareyGraph:
       for j,freq_offset in enumerate(start_offsets):
         if j>0 and not colpar:
           color="purple"
-        scriptcall = 'onmouseover="LineClick(\'%s\',\'Trip %s starting %s\')"' % (t.trip_id,
-            t.trip_id, transitfeed.FormatSecondsSinceMidnight(t.GetStartTime()))
-        tmpstrhead = '<polyline class="T" id="%s" stroke="%s" %s points="' % \
-          (str(t.trip_id),color, scriptcall)
+        trip_id = util.EncodeUnicode(t.trip_id)
+        script_id = trip_id.replace('\\', '\\\\').replace("'", "\\'")
+        script = "LineClick('%s','Trip %s starting %s')" % (script_id,
+            script_id, transitfeed.FormatSecondsSinceMidnight(t.GetStartTime()))
+        tmpstrhead = '<polyline class="T" id=%s stroke="%s" onmouseover=%s points="' % \
+          (saxutils.quoteattr(trip_id), color, saxutils.quoteattr(script))
         tmpstrs.append(tmpstrhead)
 
         for i, s in enumerate(t.GetTimeStops()):
-- 
2.43.0


From 0fae349de758a1068293349b828363b2018be997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:01 +0000
Subject: [PATCH 086/108] fix: place the stations of a Marey graph by travel
 times

---
 gtfsscheduleviewer/marey_graph.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gtfsscheduleviewer/marey_graph.py b/gtfsscheduleviewer/marey_graph.py
index 5661329..b3a1cec 100644
--- a/gtfsscheduleviewer/marey_graph.py
+++ b/gtfsscheduleviewer/marey_graph.py
@@ -100,10 +100,12 @@ class MareyGraph:
       self._slist=stoplist
       self._decorators = []
       self._stations = self._BuildStations(stoplist)
+      # Drawing trips places the stations if the stops do not
+      trips = self._DrawTrips(triplist)
       self._cache = "%s %s %s %s" % (self._DrawBox(),
                                       self._DrawHours(),
                                       self._DrawStations(),
-                                      self._DrawTrips(triplist))
+                                      trips)
 
 
 
@@ -290,8 +292,11 @@ class MareyGraph:
     else:
       trip = triplist[0]
 
-    t_dists2 = [DistanceInTravelTime(stop[3],tail[2]) for (stop,tail)
-                 in itertools.izip(trip.GetTimeStops(),trip.GetTimeStops()[1:])]
+    time_stops = trip.GetTimeStops()
+    if any(arr is None or dep is None for (arr, dep, stop) in time_stops):
+      return []
+    t_dists2 = [DistanceInTravelTime(stop[1],tail[0]) for (stop,tail)
+                 in itertools.izip(time_stops, time_stops[1:])]
     return t_dists2
 
   def _AddWarning(self, str):
@@ -361,7 +366,7 @@ class MareyGraph:
     """Fallback to assuming uniform distance between stations"""
     # This should not be neseccary, but we are in fallback mode
     longest = max([len(t.GetTimeStops()) for t in triplist])
-    return [100] * longest
+    return [100] * (longest - 1)
 
   def _DrawStations(self, color="#aaa"):
     """Generates svg with a horizontal line for each station/stop.
-- 
2.43.0


From c7b89356fafc3fd8e00c8f4166cbe1139aba3f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:01 +0000
Subject: [PATCH 087/108] fix: highlight the first station of a Marey graph,
 too

---
 gtfsscheduleviewer/marey_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gtfsscheduleviewer/marey_graph.py b/gtfsscheduleviewer/marey_graph.py
index b3a1cec..4752f76 100644
--- a/gtfsscheduleviewer/marey_graph.py
+++ b/gtfsscheduleviewer/marey_graph.py
@@ -419,7 +419,7 @@ class MareyGraph:
     num_stations = len(self._stations)
     ind = int(index)
     if self._stations:
-      if 0<ind<num_stations:
+      if 0<=ind<num_stations:
         y = self._stations[ind]
         tmpstr = '<polyline class="Dec" stroke="%s" points="%s,%s,%s,%s" />' \
           % (color, 20, 20+y+.5, self._gwidth+20, 20+y+.5)
-- 
2.43.0


From 8d679ec3cbc6f868701b0163e098da80c4f4bb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:27 +0000
Subject: [PATCH 088/108] fix: let columns of spreadsheets end early

examples/table.py failed on trips whose last cells are empty.
---
 examples/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/examples/table.py b/examples/table.py
index ecd6937..73f9b14 100755
--- a/examples/table.py
+++ b/examples/table.py
@@ -55,7 +55,8 @@ def AddRouteToSchedule(schedule, table):
       t = r.AddTrip(schedule, headsign='My headsign')
       trip_stops = []  # Build a list of (time, stopname) tuples
       for i in range(0, len(trip)):
-        if re.search(r'\S', trip[i]):
+        # Columns may end early, see TransposeTable
+        if trip[i] and re.search(r'\S', trip[i]):
           trip_stops.append( (transitfeed.TimeToSecondsSinceMidnight(trip[i]), table[1][i]) )
       trip_stops.sort()  # Sort by time
       for (time, stopname) in trip_stops:
-- 
2.43.0


From d082eb437214960974cae32078fbe39dc4e461d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:27 +0000
Subject: [PATCH 089/108] fix: random queries for feeds with paths that are not
 ASCII

---
 examples/google_random_queries.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/examples/google_random_queries.py b/examples/google_random_queries.py
index 7292838..4c586d0 100755
--- a/examples/google_random_queries.py
+++ b/examples/google_random_queries.py
@@ -222,7 +222,8 @@ https://github.com/google/transitfeed/wiki/GoogleRandomQueries
   locations = GetRandomLocationsNearStops(schedule)
   random.shuffle(locations)
   agencies = ", ".join([a.agency_name for a in schedule.GetAgencyList()])
-  title = "%s (%s)" % (agencies, ParentAndBaseName(feed_path))
+  title = "%s (%s)" % (transitfeed.EncodeUnicode(agencies),
+                       ParentAndBaseName(feed_path))
 
   WriteOutput(title,
               locations,
-- 
2.43.0


From 0e0ffdddddb02bdab4bcfa6cdac015054a48ddbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:32 +0000
Subject: [PATCH 090/108] fix: report unwanted vehicle types by their value, 0
 included

---
 extensions/googletransit/stop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/extensions/googletransit/stop.py b/extensions/googletransit/stop.py
index e921074..fd15cc7 100644
--- a/extensions/googletransit/stop.py
+++ b/extensions/googletransit/stop.py
@@ -37,12 +37,12 @@ class Stop(transitfeed.Stop):
         'vehicle_type', problems)
     # Entrances must not have a vehicle type, in general google transit does not
     # read vehicle types from stops with a parent station.
-    if self.vehicle_type:
+    if not util.IsEmpty(self.vehicle_type):
       if self.location_type == 2:
-        problems.InvalidValue('vehicle_type', self.location_type,
+        problems.InvalidValue('vehicle_type', self.vehicle_type,
               reason='an entrance must not have a vehicle type')
       elif not util.IsEmpty(self.parent_station):
-        problems.InvalidValue('vehicle_type', self.location_type,
+        problems.InvalidValue('vehicle_type', self.vehicle_type,
               reason='Google Transit does not read vehicle types for stops '
               'having a parent station', type=problems_module.TYPE_WARNING)
 
-- 
2.43.0


From 337b782b29463d2a6f03b03431e8cc8caaf94941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:32 +0000
Subject: [PATCH 091/108] fix: report the location types of stops without a
 name once

---
 extensions/googletransit/stop.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/extensions/googletransit/stop.py b/extensions/googletransit/stop.py
index fd15cc7..55427fb 100644
--- a/extensions/googletransit/stop.py
+++ b/extensions/googletransit/stop.py
@@ -67,8 +67,10 @@ class Stop(transitfeed.Stop):
   def _ReportMissingRequiredField(self, problems, required):
     if required == 'stop_name':
       # stops of type 2 (entrance) may have an empty stop_name
-      self.ValidateStopLocationType(problems)
-      if self.location_type == 2:
+      # Invalid location types are reported by ValidateStopLocationType()
+      location_type = util.ValidateAndReturnIntValue(
+          self.location_type, [0, 1, 2], 0, True)
+      if location_type == 2:
         return
     problems.MissingValue(required)
     setattr(self, required, None)
-- 
2.43.0


From 9eb90bd19b8215806f8598a93c81c008710edf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:32 +0000
Subject: [PATCH 092/108] fix: report emissions that are not finite numbers

---
 extensions/googletransit/route.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/extensions/googletransit/route.py b/extensions/googletransit/route.py
index 04cfdfc..2af610b 100644
--- a/extensions/googletransit/route.py
+++ b/extensions/googletransit/route.py
@@ -14,6 +14,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import math
 import transitfeed
 import transitfeed.util as util
 
@@ -81,7 +82,10 @@ class Route(transitfeed.Route):
   def ValidateCo2PerKm(self, problems):
     if not util.IsEmpty(self.co2_per_km):
       try:
-        self.co2_per_km = float(self.co2_per_km)
+        co2_per_km = float(self.co2_per_km)
+        if math.isnan(co2_per_km) or math.isinf(co2_per_km):
+          raise ValueError()
+        self.co2_per_km = co2_per_km
       except ValueError:
         problems.InvalidValue('co2_per_km', self.co2_per_km)
 
-- 
2.43.0


From 1cf3eda3857511bf61e90ec52f481aa4ee8eb8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:32 +0000
Subject: [PATCH 093/108] fix: accept fares with an empty agency_id if there is
 one agency

The check took an empty value for the id of an agency.
---
 extensions/googletransit/fareattribute.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensions/googletransit/fareattribute.py b/extensions/googletransit/fareattribute.py
index 397f3ba..22e0d48 100644
--- a/extensions/googletransit/fareattribute.py
+++ b/extensions/googletransit/fareattribute.py
@@ -15,6 +15,7 @@
 # limitations under the License.
 
 import transitfeed
+import transitfeed.util as util
 
 class FareAttribute(transitfeed.FareAttribute):
   """Extension of transitfeed.FareAttribute:
@@ -31,7 +32,7 @@ class FareAttribute(transitfeed.FareAttribute):
     for agency in agencies:
       if agency.agency_id == self.agency_id:
         return
-    if len(agencies) > 1 or self.agency_id is not None:
+    if len(agencies) > 1 or not util.IsEmpty(self.agency_id):
       # If there is only one agency and Fare.agencyid is empty or not present
       # then it isn't an error
       problems.InvalidAgencyID('agency_id', self.agency_id,
-- 
2.43.0


From 3fa1f14928a6fb335f160bf1f0340e54217815a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:57 +0000
Subject: [PATCH 094/108] Revert "fix: random queries for feeds with paths that
 are not ASCII"

This reverts commit d082eb437214960974cae32078fbe39dc4e461d8.
---
 examples/google_random_queries.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/examples/google_random_queries.py b/examples/google_random_queries.py
index 4c586d0..7292838 100755
--- a/examples/google_random_queries.py
+++ b/examples/google_random_queries.py
@@ -222,8 +222,7 @@ https://github.com/google/transitfeed/wiki/GoogleRandomQueries
   locations = GetRandomLocationsNearStops(schedule)
   random.shuffle(locations)
   agencies = ", ".join([a.agency_name for a in schedule.GetAgencyList()])
-  title = "%s (%s)" % (transitfeed.EncodeUnicode(agencies),
-                       ParentAndBaseName(feed_path))
+  title = "%s (%s)" % (agencies, ParentAndBaseName(feed_path))
 
   WriteOutput(title,
               locations,
-- 
2.43.0


From 159adfcedf5bb1bad1dacbb601e391bfcfea18bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:57 +0000
Subject: [PATCH 095/108] Revert "fix: let columns of spreadsheets end early"

This reverts commit 8d679ec3cbc6f868701b0163e098da80c4f4bb82.
---
 examples/table.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/examples/table.py b/examples/table.py
index 73f9b14..ecd6937 100755
--- a/examples/table.py
+++ b/examples/table.py
@@ -55,8 +55,7 @@ def AddRouteToSchedule(schedule, table):
       t = r.AddTrip(schedule, headsign='My headsign')
       trip_stops = []  # Build a list of (time, stopname) tuples
       for i in range(0, len(trip)):
-        # Columns may end early, see TransposeTable
-        if trip[i] and re.search(r'\S', trip[i]):
+        if re.search(r'\S', trip[i]):
           trip_stops.append( (transitfeed.TimeToSecondsSinceMidnight(trip[i]), table[1][i]) )
       trip_stops.sort()  # Sort by time
       for (time, stopname) in trip_stops:
-- 
2.43.0


From c0dbc5d79cc1c6c1019de473d1477ee92ee0f4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:57 +0000
Subject: [PATCH 096/108] Revert "fix: keep the stations of used stops when
 filtering unused stops"

This reverts commit a970c03bc0e3193b2fd7789e49f22f7d32e84f58.
---
 examples/filter_unused_stops.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/examples/filter_unused_stops.py b/examples/filter_unused_stops.py
index eef945a..461597c 100755
--- a/examples/filter_unused_stops.py
+++ b/examples/filter_unused_stops.py
@@ -44,14 +44,8 @@ def main():
 
   print("Removing unused stops...")
   removed = 0
-  used = set()
   for stop_id, stop in schedule.stops.items():
-    if stop.GetTrips(schedule):
-      used.add(stop_id)
-      # The station of a used stop is needed as well
-      used.add(stop.parent_station)
-  for stop_id, stop in schedule.stops.items():
-    if stop_id not in used:
+    if not stop.GetTrips(schedule):
       removed += 1
       del schedule.stops[stop_id]
       if options.list_removed:
-- 
2.43.0


From f92494c5be61e4afbc0b792b84cac82a9ed4cdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:46 +0000
Subject: [PATCH 097/108] fix: make coordinates given as strings to AddStop
 numbers

---
 transitfeed/schedule.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 39dae28..2714a46 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -353,6 +353,11 @@ class Schedule(object):
     if stop_id is None:
       stop_id = util.FindUniqueId(self.stops)
     stop = self._gtfs_factory.Stop(stop_id=stop_id, lat=lat, lng=lng, name=name)
+    # Queries such as GetNearestStops need numbers
+    if isinstance(lat, basestring):
+      stop.ValidateStopLatitude(self.problem_reporter)
+    if isinstance(lng, basestring):
+      stop.ValidateStopLongitude(self.problem_reporter)
     self.AddStopObject(stop)
     return stop
 
-- 
2.43.0


From 1e34366063ecb9aff24163448376a80bb8a323ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:21 +0000
Subject: [PATCH 098/108] fix: read the rows after a row that is not valid csv
 from their start

---
 transitfeed/loader.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/transitfeed/loader.py b/transitfeed/loader.py
index 80b144c..fee2046 100755
--- a/transitfeed/loader.py
+++ b/transitfeed/loader.py
@@ -146,10 +146,11 @@ class Loader:
     contents = contents.lstrip(codecs.BOM_UTF8)
     return contents
 
-  def _ReadRows(self, reader, file_name):
-    """Yield (row number, row) of each row of reader.
+  def _ReadRows(self, lines, file_name, **fmtparams):
+    """Yield (row number, row) of each row csv.reader finds in lines.
 
     A row that the csv module can't parse is reported and skipped."""
+    reader = csv.reader(lines, **fmtparams)
     row_num = 0
     while True:
       row_num += 1
@@ -162,6 +163,8 @@ class Loader:
             description="This row is not valid csv and was skipped: %s" % e,
             context=(file_name, row_num),
             type=problems.TYPE_ERROR)
+        # A reader may keep what it has read of the row it failed on.
+        reader = csv.reader(lines, **fmtparams)
         continue
       yield (row_num, row)
 
@@ -180,8 +183,7 @@ class Loader:
     # after fields. Space after header fields can cause a serious parsing
     # problem, so warn. Space after body fields can cause a problem time,
     # integer and id fields; they will be validated at higher levels.
-    rows = self._ReadRows(csv.reader(eol_checker, skipinitialspace=True),
-                          file_name)
+    rows = self._ReadRows(eol_checker, file_name, skipinitialspace=True)
 
     line_num, raw_header = next(rows, (0, None))
     if line_num != 1:  # The header could not be read
@@ -312,8 +314,7 @@ class Loader:
 
     eol_checker = util.EndOfLineChecker(StringIO(contents),
                                    file_name, self._problems)
-    rows = self._ReadRows(csv.reader(eol_checker),  # Use excel dialect
-                          file_name)
+    rows = self._ReadRows(eol_checker, file_name)  # Use excel dialect
 
     row_num, header = next(rows, (0, None))
     if row_num != 1:  # The header could not be read
-- 
2.43.0


From 92163abec07f2259003245a45c8c222ff7fcd278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:07 +0000
Subject: [PATCH 099/108] fix: let the shape importer run without --keycols

---
 shape_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape_importer.py b/shape_importer.py
index 8c12f19..9e3f661 100755
--- a/shape_importer.py
+++ b/shape_importer.py
@@ -286,6 +286,6 @@ if __name__ == '__main__':
       PrintColumns(arg)
     sys.exit(0)
 
-  key_cols = options.keycols.split(',')
+  key_cols = options.keycols and options.keycols.split(',')
 
   main(key_cols)
-- 
2.43.0


From f7f707d2a3f802be11708b7b7f7e37e7ca23a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:07 +0000
Subject: [PATCH 100/108] fix: let the shape importer tell about patterns

---
 shape_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shape_importer.py b/shape_importer.py
index 9e3f661..621f8ba 100755
--- a/shape_importer.py
+++ b/shape_importer.py
@@ -222,7 +222,7 @@ def main(key_cols):
       poly_points = [shapelib.Point.FromLatLng(p.stop_lat, p.stop_lon)
                      for p in pattern]
       if verbosity >= 2:
-        print("\npattern %d, %d points:" % (pattern_id, len(poly_points)))
+        print("\npattern %s, %d points:" % (pattern_id, len(poly_points)))
         for i, (stop, point) in enumerate(zip(pattern, poly_points)):
           print("Stop %d '%s': %s" % (i + 1, stop.stop_name, point.ToLatLng()))
 
-- 
2.43.0


From aab29ae680f7762ee995aa67883c20073649bcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:07 +0000
Subject: [PATCH 101/108] fix: give imported shapes ids that the feed does not
 use

---
 shape_importer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/shape_importer.py b/shape_importer.py
index 621f8ba..41e14a8 100755
--- a/shape_importer.py
+++ b/shape_importer.py
@@ -206,6 +206,8 @@ def main(key_cols):
 
   print('Loading GTFS from %s...' % options.source_gtfs)
   schedule = transitfeed.Loader(options.source_gtfs).Load()
+  used_shape_ids = set(shape.shape_id for shape in schedule.GetShapeList())
+  shape_number = 0
   shape_count = 0
   pattern_count = 0
 
@@ -250,9 +252,12 @@ def main(key_cols):
                                      verbosity=verbosity)
       if shape_match:
         shape_count += 1
-        # Rename shape for readability.
+        # Rename shape for readability, to an id the feed doesn't use already.
+        shape_number += 1
+        while "shape_%d" % shape_number in used_shape_ids:
+          shape_number += 1
         shape_match = shapelib.Poly(points=shape_match.GetPoints(),
-                                           name="shape_%d" % shape_count)
+                                           name="shape_%d" % shape_number)
         for trip in trips:
           try:
             shape = schedule.GetShape(shape_match.GetName())
-- 
2.43.0


From 500875409ab0165fa0819ae64acbc13d8b71a02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:35 +0000
Subject: [PATCH 102/108] fix: join imported lines with extra shapes whatever
 their names

---
 shape_importer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shape_importer.py b/shape_importer.py
index 41e14a8..2350b74 100755
--- a/shape_importer.py
+++ b/shape_importer.py
@@ -135,7 +135,8 @@ def AddExtraShapes(extra_shapes_txt, graph):
 # Note: this method lives here to avoid cross-dependencies between
 # shapelib and transitfeed.
 def ShapeToPoly(shape):
-  poly = shapelib.Poly(name=shape.shape_id)
+  # Names of polys are byte strings, as in AddShapefile.
+  poly = shapelib.Poly(name=util.EncodeUnicode(shape.shape_id))
   for lat, lng, distance in shape.points:
     point = shapelib.Point.FromLatLng(round(lat, 15), round(lng, 15))
     poly.AddPoint(point)
-- 
2.43.0


From cf48fe873ff1f502a329d44048bf49da87d7e74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:34 +0000
Subject: [PATCH 103/108] fix: read the first advertised line of the Zurich
 export

---
 misc/import_ch_zurich.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/misc/import_ch_zurich.py b/misc/import_ch_zurich.py
index 1d9357e..cf28ad0 100755
--- a/misc/import_ch_zurich.py
+++ b/misc/import_ch_zurich.py
@@ -88,6 +88,8 @@ def ReadCSV(s, cols):
       col_index[i] = header.index(cols[i])
 
   for row in reader:
+    if not row:
+      continue
     result = [None] * len(cols)
     for i in range(len(cols)):
       ci = col_index[i]
@@ -197,7 +199,7 @@ class DivaImporter:
     read = lambda name, prefix="": (prefix + inzip.read(name)).splitlines()
     # The advertised lines file has no column headers.
     self.ImportStations(read('rec_ort.mdv'), read('bedienendeLinien_google.csv',
-                                                  "ORT_NR;LI_NR;;;;"))
+                                                  "ORT_NR;LI_NR;;;;\n"))
     self.ImportRoutes(read('rec_lin_ber.mdv'))
     self.ImportPatterns(read('lid_verlauf.mdv'))
     self.ImportServices(read('tagesart_merkmal.mdv'),
-- 
2.43.0


From 3ca3ad6e05ac39510066d23795d145910f2ad717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:34 +0000
Subject: [PATCH 104/108] fix: use the right coefficients to convert Swiss
 coordinates

---
 misc/import_ch_zurich.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/misc/import_ch_zurich.py b/misc/import_ch_zurich.py
index cf28ad0..5af9b13 100755
--- a/misc/import_ch_zurich.py
+++ b/misc/import_ch_zurich.py
@@ -108,9 +108,9 @@ def ConvertCH1903(x, y):
      + 0.1306 * yb * xb * xb \
      - 0.0436 * yb * yb * yb
   phi = 16.9023892 \
-     + 3.238372 * xb \
+     + 3.238272 * xb \
      - 0.270978 * yb * yb \
-     - 0.002582 * xb * xb \
+     - 0.002528 * xb * xb \
      - 0.0447 * yb * yb * xb \
      - 0.0140 * xb * xb * xb
   return (phi * 100.0 / 36.0, lam * 100.0 / 36.0)
-- 
2.43.0


From 7c31340ec9a9b1df2a3aab2e24a5a57020161f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:34 +0000
Subject: [PATCH 105/108] fix: keep the boarding rules of the Zurich export

---
 misc/import_ch_zurich.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/misc/import_ch_zurich.py b/misc/import_ch_zurich.py
index 5af9b13..3619a6b 100755
--- a/misc/import_ch_zurich.py
+++ b/misc/import_ch_zurich.py
@@ -374,6 +374,7 @@ class DivaImporter:
       # to prevent overwritingimported trips when we key them by trip.id
       # we should make trip.id unique, by combining trip_id and line
       trip.id = ("%s_%s") % (trip_id, line)
+      trip.original_id = trip_id  # used by bedverb.mdv
       trip.starttime = int(trip_starttime)
       trip.route = self.routes[line]
       dest_station = self.stations[dest_station_id]
@@ -476,8 +477,8 @@ class DivaImporter:
           WriteRow(out, [trip.id, str(seq + 1), station.id,
                          self.FormatTime(time),
                          self.FormatTime(time + wait_time),
-                         self.pickup_type.get((trip.id, seq), '0'),
-                         self.drop_off_type.get((trip.id, seq), '0')])
+                         self.pickup_type.get((trip.original_id, seq), '0'),
+                         self.drop_off_type.get((trip.original_id, seq), '0')])
         time += wait_time
 
 
-- 
2.43.0


From 1d4f9c9bf31beb817c3dd19c26235d9cbc2aa1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:51 +0000
Subject: [PATCH 106/108] fix: write lines of the Zurich export with names that
 are not ASCII

---
 misc/import_ch_zurich.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/misc/import_ch_zurich.py b/misc/import_ch_zurich.py
index 3619a6b..99d2a49 100755
--- a/misc/import_ch_zurich.py
+++ b/misc/import_ch_zurich.py
@@ -415,9 +415,8 @@ class DivaImporter:
     k = [(r.id, r) for r in self.routes.itervalues()]
     k.sort()
     for id, route in k:
-      name = EncodeForCSV(route.name)
-      out.write('%s,%s,%s,%s,%s,%s\n' % (
-          id, name, name, route.type,route.color,route.color_text))
+      WriteRow(out, [id, route.name, route.name, str(route.type),
+                     route.color, route.color_text])
 
   def WriteStations(self, out):
     out.write('stop_id,stop_uic_code,stop_name,stop_city,stop_country,'
-- 
2.43.0


From 6937992885c5fcf8606fce12ff122f85508b68c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:42 +0000
Subject: [PATCH 107/108] fix: refuse locations the location editor can not set
 as a whole

---
 location_editor.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/location_editor.py b/location_editor.py
index e3833bc..3a873eb 100755
--- a/location_editor.py
+++ b/location_editor.py
@@ -24,23 +24,30 @@
 
 from __future__ import print_function
 import schedule_viewer
-import transitfeed
+from transitfeed import util
 
 class LocationEditorRequestHandler(schedule_viewer.ScheduleRequestHandler):
   def handle_json_GET_setstoplocation(self, params):
     schedule = self.server.schedule
-    stop_id = params.get('id', None)
-    lat = params.get('lat', -1)
-    lon = params.get('lng', -1)
-    stop = schedule.GetStop(stop_id)
-    if (stop is None):
-      msg = 'Stop with id=' + stop_id + 'not found.'
+    stop_id = params.get('id', '')
+    lat = params.get('lat', '')
+    lon = params.get('lng', '')
+    try:
+      stop = schedule.GetStop(stop_id)
+      new_lat = float(lat)
+      new_lon = float(lon)
+      if not (-90 <= new_lat <= 90 and -180 <= new_lon <= 180):
+        raise ValueError('location is not on the globe')
+    except KeyError:
+      msg = 'Stop with id=' + stop_id + ' not found.'
+    except ValueError:
+      msg = 'Invalid location ' + lat + 'x' + lon + ' of stop ' + stop_id
     else:
-      stop.stop_lat = float(lat)
-      stop.stop_lon = float(lon)
+      stop.stop_lat = new_lat
+      stop.stop_lon = new_lon
       msg = 'Location of ' + stop['stop_name'] + '(' + stop_id + ') set to ' + \
             lat + 'x' + lon
-    print(msg)
+    print(util.EncodeUnicode(msg))
     return msg
 
   def handle_json_GET_savedata(self, params):
-- 
2.43.0


From d098a7dfee4073d7f716c7aca9add3bb1ec9fc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:01:53 +0000
Subject: [PATCH 108/108] fix: let objects a schedule makes know its factory

---
 extensions/googletransit/stop.py | 2 +-
 transitfeed/route.py             | 1 +
 transitfeed/schedule.py          | 2 ++
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/extensions/googletransit/stop.py b/extensions/googletransit/stop.py
index 55427fb..a91c841 100644
--- a/extensions/googletransit/stop.py
+++ b/extensions/googletransit/stop.py
@@ -33,7 +33,7 @@ class Stop(transitfeed.Stop):
   # New validation function for field 'vehicle_type'.
   def ValidateVehicleType(self, problems):
     self.vehicle_type = util.ValidateAndReturnIntValue(
-        self.vehicle_type, self._gtfs_factory.Route._ROUTE_TYPE_IDS, None, True,
+        self.vehicle_type, self.GetGtfsFactory().Route._ROUTE_TYPE_IDS, None, True,
         'vehicle_type', problems)
     # Entrances must not have a vehicle type, in general google transit does not
     # read vehicle types from stops with a parent station.
diff --git a/transitfeed/route.py b/transitfeed/route.py
index e55edb1..c2b8f2f 100755
--- a/transitfeed/route.py
+++ b/transitfeed/route.py
@@ -97,6 +97,7 @@ class Route(GtfsObjectBase):
     trip_class = self.GetGtfsFactory().Trip
     trip_obj = trip_class(route=self, headsign=headsign,
                 service_period=service_period, trip_id=trip_id)
+    trip_obj.SetGtfsFactory(self.GetGtfsFactory())
     schedule.AddTripObject(trip_obj)
     return trip_obj
 
diff --git a/transitfeed/schedule.py b/transitfeed/schedule.py
index 2714a46..7e970eb 100755
--- a/transitfeed/schedule.py
+++ b/transitfeed/schedule.py
@@ -353,6 +353,7 @@ class Schedule(object):
     if stop_id is None:
       stop_id = util.FindUniqueId(self.stops)
     stop = self._gtfs_factory.Stop(stop_id=stop_id, lat=lat, lng=lng, name=name)
+    stop.SetGtfsFactory(self._gtfs_factory)
     # Queries such as GetNearestStops need numbers
     if isinstance(lat, basestring):
       stop.ValidateStopLatitude(self.problem_reporter)
@@ -398,6 +399,7 @@ class Schedule(object):
       route_id = util.FindUniqueId(self.routes)
     route = self._gtfs_factory.Route(short_name=short_name, long_name=long_name,
                         route_type=route_type, route_id=route_id)
+    route.SetGtfsFactory(self._gtfs_factory)
     route.agency_id = self.GetDefaultAgency().agency_id
     self.AddRouteObject(route)
     return route
-- 
2.43.0

