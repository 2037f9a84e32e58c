From 9a34ca9d762b776301c90b179edb3ad15e142b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 01/34] fix: iterate group lists independently of other
 iterations

---
 aeromet_py/reports/models/base/group.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/reports/models/base/group.py b/aeromet_py/reports/models/base/group.py
index 680baef..93793d3 100755
--- a/aeromet_py/reports/models/base/group.py
+++ b/aeromet_py/reports/models/base/group.py
@@ -2,7 +2,7 @@ import json
 
 from abc import ABCMeta, abstractmethod
 from collections import namedtuple
-from typing import Any, Dict, Generic, List, Optional, TypeVar
+from typing import Any, Dict, Generic, Iterator, List, Optional, TypeVar
 
 from .errors import RangeError
 
@@ -60,8 +60,8 @@ class GroupList(Generic[G]):
     def __str__(self) -> str:
         return " | ".join(str(group) for group in self._list)
 
-    def __iter__(self) -> "GroupList[G]":
-        return self
+    def __iter__(self) -> Iterator[G]:
+        return iter(self._list)
 
     def __next__(self) -> G:
         if self._n >= len(self._list):
-- 
2.43.0


From 4c6a208ba3e7bf3534b041e085933b792f784e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:47 +0000
Subject: [PATCH 02/34] fix: ceiling of broken or overcast layers without
 height

---
 aeromet_py/reports/models/base/cloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index f9e1cd3..6ffd6ce 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -204,6 +204,6 @@ class CloudList(GroupList[Cloud]):
         for group in self._list:
             _oktas: str = group.oktas
             _height: float = group.height_in_feet
-            if _oktas in ["5-7", "8"] and _height <= 1500.0:
+            if _oktas in ["5-7", "8"] and _height is not None and _height <= 1500.0:
                 return True
         return False
-- 
2.43.0


From 38cfdc8c6c0291960c9413ba6c8ad8f33db92cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 03/34] fix: flight rules are VFR for visibilities of 20 km or
 more

---
 aeromet_py/reports/models/base/flight_rules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/flight_rules.py b/aeromet_py/reports/models/base/flight_rules.py
index 23002d2..121ed96 100755
--- a/aeromet_py/reports/models/base/flight_rules.py
+++ b/aeromet_py/reports/models/base/flight_rules.py
@@ -62,5 +62,5 @@ class FlightRulesMixin:
             elif prevailing is None and ceiling is not None:
                 if ceiling < rules[0]:
                     return flight_rule
-            else:
-                return "VFR"
+
+        return "VFR"
-- 
2.43.0


From cb253da0a9d02ef4e1427f884c167eb0ac1c2c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:54 +0000
Subject: [PATCH 04/34] fix: no CAVOK with vertical visibility, compare the
 cover by value

---
 aeromet_py/reports/models/metar/should_be_cavok.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/should_be_cavok.py b/aeromet_py/reports/models/metar/should_be_cavok.py
index 2f4e618..8dbe325 100644
--- a/aeromet_py/reports/models/metar/should_be_cavok.py
+++ b/aeromet_py/reports/models/metar/should_be_cavok.py
@@ -42,7 +42,7 @@ class ShouldBeCavokMixin(HasPrevailingCloudsWeatherProtocol):
             return False
 
         for c in self.clouds:
-            if c.cover is "indefinite ceiling":
+            if c.cover == "indefinite ceiling":
                 return False
 
             if c.cloud_type == "cumulonimbus" or c.cloud_type == "towering cumulus":
-- 
2.43.0


From 6cadae7ab5260d92e61f47d32ac3344dff8d8d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:57 +0000
Subject: [PATCH 05/34] fix: no CAVOK when the base of a cloud layer is unknown

---
 aeromet_py/reports/models/metar/should_be_cavok.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aeromet_py/reports/models/metar/should_be_cavok.py b/aeromet_py/reports/models/metar/should_be_cavok.py
index 8dbe325..216e56b 100644
--- a/aeromet_py/reports/models/metar/should_be_cavok.py
+++ b/aeromet_py/reports/models/metar/should_be_cavok.py
@@ -48,6 +48,9 @@ class ShouldBeCavokMixin(HasPrevailingCloudsWeatherProtocol):
             if c.cloud_type == "cumulonimbus" or c.cloud_type == "towering cumulus":
                 return False
 
+            if c.height_in_feet is None and c.cover != "clear":
+                return False
+
             if c.height_in_feet is not None and c.height_in_feet < 4999.99999999:
                 return False
 
-- 
2.43.0


From 329b513889c423c0d711b342dbfa191c359bc932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:27 +0000
Subject: [PATCH 06/34] fix: valid periods that reach the second day after the
 issue

---
 aeromet_py/reports/models/taf/valid.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/aeromet_py/reports/models/taf/valid.py b/aeromet_py/reports/models/taf/valid.py
index e45759b..3036feb 100755
--- a/aeromet_py/reports/models/taf/valid.py
+++ b/aeromet_py/reports/models/taf/valid.py
@@ -46,15 +46,13 @@ class Valid(Group):
 
             _from: datetime
             _until: datetime
-            if _fmday == time.day:
-                _from = time
-            else:
-                _from = time + timedelta(days=1)
-
-            if _tlday == time.day:
-                _until = time
-            else:
-                _until = time + timedelta(days=1)
+            _from = time
+            while _from.day != _fmday:
+                _from = _from + timedelta(days=1)
+
+            _until = _from
+            while _until.day != _tlday:
+                _until = _until + timedelta(days=1)
 
             if _tlhour == 24:
                 _until = _until + timedelta(days=1)
-- 
2.43.0


From 5c62c7baede2a3cf17bce64d31294c2e513985a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:31 +0000
Subject: [PATCH 07/34] fix: TAF temperatures expected the second day after the
 issue

---
 aeromet_py/reports/models/taf/temperature.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/aeromet_py/reports/models/taf/temperature.py b/aeromet_py/reports/models/taf/temperature.py
index 096fb16..9531e11 100755
--- a/aeromet_py/reports/models/taf/temperature.py
+++ b/aeromet_py/reports/models/taf/temperature.py
@@ -32,11 +32,9 @@ class TafTemperature(Temperature, Group):
             _hour: int = int(match.group("hour"))
 
             time = time.replace(hour=_hour)
-            if _day == time.day:
-                self._time = Time(time=time)
-            else:
+            while _day != time.day:
                 time = time + timedelta(days=1)
-                self._time = Time(time=time)
+            self._time = Time(time=time)
 
     def __str__(self) -> str:
         if self._value is None:
-- 
2.43.0


From 0b163e9a19ab7b7a64b1382ebce5fcee2e367585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:34 +0000
Subject: [PATCH 08/34] fix: hour 24 in the time periods of METAR trends

---
 aeromet_py/reports/models/metar/trend_indicator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/trend_indicator.py b/aeromet_py/reports/models/metar/trend_indicator.py
index ef5f9b3..0ad69e1 100755
--- a/aeromet_py/reports/models/metar/trend_indicator.py
+++ b/aeromet_py/reports/models/metar/trend_indicator.py
@@ -40,7 +40,8 @@ class MetarTrendIndicator(ChangeIndicator):
         hour: str = match.group("hour")
         minute: str = match.group("min")
 
-        hour_as_int: int = int(hour)
+        # 2400 is the midnight at the end of the day
+        hour_as_int: int = int(hour) % 24
         min_as_int: int = int(minute)
 
         _time: datetime
-- 
2.43.0


From bd70ce551b5f515792f56a183a58f9f88dabc854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 09/34] fix: do not print while parsing METAR trends

---
 aeromet_py/reports/models/metar/weather_trend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/weather_trend.py b/aeromet_py/reports/models/metar/weather_trend.py
index 3bc09a2..7263f42 100755
--- a/aeromet_py/reports/models/metar/weather_trend.py
+++ b/aeromet_py/reports/models/metar/weather_trend.py
@@ -94,7 +94,6 @@ class ChangePeriod(Forecast):
         old_change_indicator = str(self._change_indicator)
         self._change_indicator.add_period(match)
         new_change_indicator = str(self._change_indicator)
-        print(self._change_indicator.period_at)
 
         self._string = self._string.replace(old_change_indicator, new_change_indicator)
 
-- 
2.43.0


From db9ff8375d5fe2287fc83299fc38478b531cdb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:38 +0000
Subject: [PATCH 10/34] fix: blanks around groups are not groups

---
 aeromet_py/reports/models/base/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 7f66718..36a8c29 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -35,7 +35,7 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
     unparsed_groups: List[str] = []
     index: int = 0
 
-    for group in section.split(" "):
+    for group in section.split():
         unparsed_groups.append(group)
         counter = 0
 
-- 
2.43.0


From 1d5913474391b280aa0346cfc03f723e1f9c90db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:38 +0000
Subject: [PATCH 11/34] fix: no blanks left in the raw code by a separate end
 sign

---
 aeromet_py/reports/models/base/report.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aeromet_py/reports/models/base/report.py b/aeromet_py/reports/models/base/report.py
index 6b9bedd..3c900db 100755
--- a/aeromet_py/reports/models/base/report.py
+++ b/aeromet_py/reports/models/base/report.py
@@ -16,11 +16,10 @@ class Report(StringAttributeMixin, TimeMixin, metaclass=ABCMeta):
     def __init__(self, code: str, truncate: bool = False, type: str = "METAR") -> None:
         assert code != "", "code must be a non-empty string"
 
-        code = code.strip()
+        code = code.replace("=", "").strip()
         self._truncate = truncate
 
         self._raw_code: str = re.sub(r"\s{2,}|\n+|\t+", " ", code)
-        self._raw_code = self._raw_code.replace("=", "")
         self._unparsed_groups: List[str] = []
         self._sections: List[str] = []
 
-- 
2.43.0


From 0411e7b46e0cbac80b7728420de8b175ef1cbfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:40 +0000
Subject: [PATCH 12/34] fix: keep groups with a vertical bar when splitting
 sections

---
 aeromet_py/utils/split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/split.py b/aeromet_py/utils/split.py
index ab443c9..fa9e6bd 100755
--- a/aeromet_py/utils/split.py
+++ b/aeromet_py/utils/split.py
@@ -48,8 +48,8 @@ def split_sentence(
         pattern = re.compile(kw)
         sentence = re.sub(
             pattern,
-            "|" + kw.lstrip(),
+            "\n" + kw.lstrip(),
             sentence,
             count=count,
         )
-    return sentence.split("|")
+    return sentence.split("\n")
-- 
2.43.0


From ef1f8cc50bd2df01e1bcae7d50c1aaf43d00f54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:42 +0000
Subject: [PATCH 13/34] fix: keep every remark of the METAR

---
 aeromet_py/reports/metar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/reports/metar.py b/aeromet_py/reports/metar.py
index a1680ff..703b3fd 100755
--- a/aeromet_py/reports/metar.py
+++ b/aeromet_py/reports/metar.py
@@ -278,11 +278,11 @@ class Metar(
             ):
                 trend += section + " "
             elif section.startswith("RMK"):
-                remark = section
+                remark += section + " "
             else:
                 body = section
 
-        self._sections = [body, trend.strip(), remark]
+        self._sections = [body, trend.strip(), remark.strip()]
 
     def as_dict(self) -> Dict[str, Any]:
         d = super().as_dict()
-- 
2.43.0


From 63fbee1deff800254b4614dab0d18b8b9fd5b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:45 +0000
Subject: [PATCH 14/34] fix: stations starting with FM in amended and corrected
 TAFs

---
 aeromet_py/reports/taf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 57c8de9..0ffcf49 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -195,10 +195,11 @@ class Taf(
     def _handle_sections(self) -> None:
         keywords: List[str] = ["FM", "TEMPO", "BECMG", "PROB"]
         sanitized_code: str = sanitize_change_indicator(self._raw_code)
-        if sanitized_code.startswith("TAF"):
-            sanitized_code = sanitized_code.replace("TAF ", "TAF_")
+        # The station code can start with FM, don't split there
+        header = re.match(r"(TAF )?((AMD|COR) )?", sanitized_code).group()
+        sanitized_code = header.replace(" ", "_") + sanitized_code[len(header) :]
         sections: List[str] = split_sentence(sanitized_code, keywords, space="left")
-        sections[0] = sections[0].replace("TAF_", "TAF ")
+        sections[0] = header + sections[0][len(header) :]
 
         self._body = sections[0]
         if len(sections) > 1:
-- 
2.43.0


From df26c7a6ad14043ce8bb2037b22306864225bc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 15/34] fix: use the given year and month in TAFs without time
 group

---
 aeromet_py/reports/taf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aeromet_py/reports/taf.py b/aeromet_py/reports/taf.py
index 0ffcf49..269490f 100755
--- a/aeromet_py/reports/taf.py
+++ b/aeromet_py/reports/taf.py
@@ -62,6 +62,7 @@ class Taf(
         MetarPrevailingMixin.__init__(self)
         MetarWeatherMixin.__init__(self)
         MetarCloudMixin.__init__(self)
+        self._time = Time.from_metar(year=year, month=month)
         TafValidMixin.__init__(self)
         FlightRulesMixin.__init__(self)
         ShouldBeCavokMixin.__init__(self)
-- 
2.43.0


From fc58d11ba195673435246c845869012d0e3aba0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:06 +0000
Subject: [PATCH 16/34] fix: visibility directions are N, NE, E, SE, S, SW, W
 and NW only

---
 aeromet_py/utils/metar_regexp.py | 4 ++--
 aeromet_py/utils/taf_regexp.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index 1fa664f..df41814 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -25,14 +25,14 @@ class MetarRegExp:
 
     VISIBILITY = (
         r"^((?P<vis>\d{4}|////)"
-        r"(?P<dir>[NSEW]([EW])?)?|"
+        r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/\d)?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
 
-    MINIMUM_VISIBILITY = r"^(?P<vis>\d{4}|////)" r"(?P<dir>[NSEW]([EW])?)?$"
+    MINIMUM_VISIBILITY = r"^(?P<vis>\d{4}|////)" r"(?P<dir>[NS][EW]?|[EW])?$"
 
     RUNWAY_RANGE = (
         r"^R(?P<name>\d{2}[RLC]?)/"
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index bd14d77..f07cfc8 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -22,7 +22,7 @@ class TafRegExp:
 
     VISIBILITY = (
         r"^(?P<vis>\d{4})"
-        r"(?P<dir>[NSEW]([EW])?)?|"
+        r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/\d)?"
         r"(?P<units>SM|KM|M|U)|"
-- 
2.43.0


From 874aa3c69a10ecd308988544d9ed42860d01f1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 17/34] fix: visibility fractions divided by zero are malformed

---
 aeromet_py/utils/metar_regexp.py | 2 +-
 aeromet_py/utils/taf_regexp.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index df41814..e1d320d 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -27,7 +27,7 @@ class MetarRegExp:
         r"^((?P<vis>\d{4}|////)"
         r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
-        r"(?P<fraction>\d/\d)?"
+        r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK))$"
     )
diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index f07cfc8..e58cd94 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -24,7 +24,7 @@ class TafRegExp:
         r"^(?P<vis>\d{4})"
         r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
-        r"(?P<fraction>\d/\d)?"
+        r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
         r"(?P<cavok>CAVOK)$"
     )
-- 
2.43.0


From 6e6dd530a8acad50ec76f8abf989daf316b15997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:13 +0000
Subject: [PATCH 18/34] fix: kilometers of visibility given as a fraction

---
 aeromet_py/reports/models/metar/visibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/visibility.py b/aeromet_py/reports/models/metar/visibility.py
index e50df17..1c04c8c 100755
--- a/aeromet_py/reports/models/metar/visibility.py
+++ b/aeromet_py/reports/models/metar/visibility.py
@@ -138,7 +138,7 @@ class MetarPrevailingVisibility(VisibilityWithDirection):
                 if _units == "SM":
                     self._visibility = self._from_sea_miles(_integer, _fraction)
 
-                if _units == "KM":
+                if _units == "KM" and _integer and not _fraction:
                     _in_meters = int(_integer) * 1000
                     self._visibility = Distance("{:04d}".format(_in_meters))
 
-- 
2.43.0


From df854b6e4e95692ba5406175104899c7e8aba8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:16 +0000
Subject: [PATCH 19/34] fix: pressures without units in hundredths of inches of
 mercury

---
 aeromet_py/reports/models/metar/pressure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/pressure.py b/aeromet_py/reports/models/metar/pressure.py
index da68079..59d12fc 100755
--- a/aeromet_py/reports/models/metar/pressure.py
+++ b/aeromet_py/reports/models/metar/pressure.py
@@ -28,7 +28,7 @@ class MetarPressure(Pressure, Group):
                 elif _units in ["Q", "QNH"]:
                     _pressure = _pressure * 1
                 elif _pressure > 2500.0:
-                    _pressure = _pressure * Conversions.INHG_TO_HPA
+                    _pressure = _pressure / 100.0 * Conversions.INHG_TO_HPA
                 else:
                     _pressure = _pressure * Conversions.MBAR_TO_HPA
 
-- 
2.43.0


From 64137d746584e5b31f5b60bcfbbbb7af8f96d6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 20/34] fix: match the whole change indicator group of METAR
 trends

---
 aeromet_py/utils/metar_regexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index e1d320d..d2acde5 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -93,7 +93,7 @@ class MetarRegExp:
         r"(?P<clrd>CLRD//))$"
     )
 
-    CHANGE_INDICATOR = r"^TEMPO|BECMG|NOSIG$"
+    CHANGE_INDICATOR = r"^(TEMPO|BECMG|NOSIG)$"
 
     TREND_TIME_PERIOD = (
         r"^(?P<prefix>FM|TL|AT)" r"(?P<hour>[01]\d|2[0-4])" r"(?P<min>[0-5]\d)$"
-- 
2.43.0


From ed50ce05e9a378982d826a7b8848827e01c54095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:36 +0000
Subject: [PATCH 21/34] fix: match the whole visibility group of TAFs

---
 aeromet_py/utils/taf_regexp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index e58cd94..2ce508b 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -21,12 +21,12 @@ class TafRegExp:
     )
 
     VISIBILITY = (
-        r"^(?P<vis>\d{4})"
+        r"^((?P<vis>\d{4})"
         r"(?P<dir>[NS][EW]?|[EW])?|"
         r"(M|P)?(?P<integer>\d{1,2})?_?"
         r"(?P<fraction>\d/[1-9])?"
         r"(?P<units>SM|KM|M|U)|"
-        r"(?P<cavok>CAVOK)$"
+        r"(?P<cavok>CAVOK))$"
     )
 
     TEMPERATURE = (
-- 
2.43.0


From 047c537d20a112b95f6cbcc7a0af4f60481ad172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:39 +0000
Subject: [PATCH 22/34] fix: match the whole temperature group of TAFs

---
 aeromet_py/utils/taf_regexp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index 2ce508b..52122a6 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -30,11 +30,11 @@ class TafRegExp:
     )
 
     TEMPERATURE = (
-        r"T(?P<type>N|X)"
+        r"^T(?P<type>N|X)"
         r"(?P<sign>M)?"
         r"(?P<temp>\d{2})/"
         r"(?P<day>0[1-9]|[12][0-9]|3[01])"
-        r"(?P<hour>[0-1]\d|2[0-3])Z"
+        r"(?P<hour>[0-1]\d|2[0-3])Z$"
     )
 
     CHANGE_INDICATOR = (
-- 
2.43.0


From 8ca3b9e23394ffcb61ba4c11bb4eef82c24babd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:42 +0000
Subject: [PATCH 23/34] fix: match the whole change indicator group of TAFs

---
 aeromet_py/utils/taf_regexp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aeromet_py/utils/taf_regexp.py b/aeromet_py/utils/taf_regexp.py
index 52122a6..6c60ef6 100755
--- a/aeromet_py/utils/taf_regexp.py
+++ b/aeromet_py/utils/taf_regexp.py
@@ -38,9 +38,9 @@ class TafRegExp:
     )
 
     CHANGE_INDICATOR = (
-        r"^TEMPO|BECMG"
+        r"^(TEMPO|BECMG"
         r"|FM(?P<day>0[1-9]|[12][0-9]|3[01])"
         r"(?P<hour>[0-1]\d|2[0-3])"
         r"(?P<minute>[0-5]\d)"
-        r"|PROB[34]0(_TEMPO)?$"
+        r"|PROB[34]0(_TEMPO)?)$"
     )
-- 
2.43.0


From 3c14800a34e3b71611ae15c4fb49bc6c387f64a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 24/34] fix: report times with hour 24 are malformed

---
 aeromet_py/utils/metar_regexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/utils/metar_regexp.py b/aeromet_py/utils/metar_regexp.py
index d2acde5..e60be20 100755
--- a/aeromet_py/utils/metar_regexp.py
+++ b/aeromet_py/utils/metar_regexp.py
@@ -6,7 +6,7 @@ class MetarRegExp:
 
     TIME = (
         r"^(?P<day>0[1-9]|[12][0-9]|3[01])"
-        r"(?P<hour>[0-1]\d|2[0-4])"
+        r"(?P<hour>[0-1]\d|2[0-3])"
         r"(?P<min>[0-5]\d)Z$"
     )
 
-- 
2.43.0


From bfd5c3e53b6bec8ddf2a54c5ea3a19d5f67926f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:48 +0000
Subject: [PATCH 25/34] fix: cover of overcast layers written with a zero

---
 aeromet_py/reports/models/base/cloud.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index 6ffd6ce..f52b604 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -93,7 +93,7 @@ class Cloud(Group):
 
         if match is not None:
             _code = match.string
-            cover: str = match.group("cover")
+            cover: str = match.group("cover").replace("0VC", "OVC")
 
             _cover = SKY_COVER.get(cover, None)
             _oktas = _set_oktas(cover)
-- 
2.43.0


From 2834f3c81e3e37e29d22b03158d81f5074568c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:06 +0000
Subject: [PATCH 26/34] fix: join only whole groups of visibility in sea miles

---
 aeromet_py/utils/parser.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index b91cea4..63defb6 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -14,17 +14,9 @@ def sanitize_visibility(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    regex = r"\s(?P<int>\d+)\s(?P<frac>\d/\dSM)\s?"
+    regex = r"(?<!\S)(?P<int>\d{1,2})\s(?P<frac>\d/[1-9]SM)(?!\S)"
 
-    for _ in range(3):
-        match = re.search(regex, report)
-
-        try:
-            report = re.sub(regex, " {}_{} ".format(*match.groups()), report, count=1)
-        except AttributeError:
-            break
-
-    return report
+    return re.sub(regex, r"\g<int>_\g<frac>", report)
 
 
 def sanitize_windshear(report: str) -> str:
-- 
2.43.0


From 9a43a328d31aa676e0834d135de7d70380e6e253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:08 +0000
Subject: [PATCH 27/34] fix: join only whole groups of windshear

---
 aeromet_py/utils/parser.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index 63defb6..a8abe5a 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -29,16 +29,11 @@ def sanitize_windshear(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    report = re.sub(r"WS\sALL\sRWY", "WS_ALL_RWY", report)
+    report = re.sub(r"(?<!\S)WS\sALL\sRWY(?!\S)", "WS_ALL_RWY", report)
 
-    fmt = r"WS\sR(WY)?(?P<name>\d{2}[CLR]?)"
-    pattern = re.compile(fmt)
-    for _ in range(3):
-        match = pattern.search(report)
-        if match:
-            report = re.sub(fmt, "WS_R{}".format(match.group("name")), report, count=1)
+    fmt = r"(?<!\S)WS\sR(WY)?(?P<name>\d{2}[CLR]?)(?!\S)"
 
-    return report
+    return re.sub(fmt, r"WS_R\g<name>", report)
 
 
 def sanitize_change_indicator(report: str) -> str:
-- 
2.43.0


From c893501f27ffc75434e568e9a67b1127922e74dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:12 +0000
Subject: [PATCH 28/34] fix: join every PROB TEMPO change indicator and only
 whole ones

---
 aeromet_py/utils/parser.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index a8abe5a..317ea94 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -46,15 +46,6 @@ def sanitize_change_indicator(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    fmt = r"PROB(?P<percent>[34]0)\sTEMPO"
-    pattern = re.compile(fmt)
-    for _ in range(5):
-        match = pattern.search(report)
-        if match:
-            report = re.sub(
-                fmt, "PROB{}_TEMPO".format(match.group("percent")), report, count=1
-            )
-        else:
-            break
-
-    return report
+    fmt = r"(?<!\S)PROB(?P<percent>[34]0)\sTEMPO(?!\S)"
+
+    return re.sub(fmt, r"PROB\g<percent>_TEMPO", report)
-- 
2.43.0


From cb09ef3ed9190b2ddfc721d1d5c265e8617da177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:14 +0000
Subject: [PATCH 29/34] fix: TAF changes with a malformed change indicator

---
 aeromet_py/reports/models/taf/change_forecast.py  | 15 ++++++++++-----
 aeromet_py/reports/models/taf/change_indicator.py |  3 +++
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index 01eafd8..b895bfe 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -79,20 +79,25 @@ class TafChangesForecasted(GroupList[ChangeForecasted]):
     def add(self, new_change: ChangeForecasted) -> None:
         """Adds weather changes to the list."""
         if len(self._list) > 0:
-            if new_change.code.startswith("FM") or new_change.code.startswith("BECMG"):
+            # The code is None when the change indicator is malformed
+            new_code: str = new_change.change_indicator.code or ""
+            if new_code.startswith("FM") or new_code.startswith("BECMG"):
                 temp_changes: List[ChangeForecasted] = []
 
                 last_change: ChangeForecasted = self._list.pop()
                 while True:
-                    if last_change.change_indicator.code.startswith(
-                        "PROB"
-                    ) or last_change.change_indicator.code.startswith("TEMPO"):
+                    last_code: str = last_change.change_indicator.code or ""
+                    if (
+                        last_code == ""
+                        or last_code.startswith("PROB")
+                        or last_code.startswith("TEMPO")
+                    ):
                         temp_changes.append(last_change)
                         try:
                             last_change = self._list.pop()
                         except IndexError:
                             break
-                    elif last_change.change_indicator.code.startswith("FM"):
+                    elif last_code.startswith("FM"):
                         last_change.change_indicator.reset_until_period(
                             new_change.change_indicator.valid.period_from
                         )
diff --git a/aeromet_py/reports/models/taf/change_indicator.py b/aeromet_py/reports/models/taf/change_indicator.py
index 2cc4e5d..b922e4d 100755
--- a/aeromet_py/reports/models/taf/change_indicator.py
+++ b/aeromet_py/reports/models/taf/change_indicator.py
@@ -44,6 +44,9 @@ class TafChangeIndicator(ChangeIndicator):
         """
         self._valid = Valid.from_taf(match, init_time.time)
 
+        if self._code is None:
+            return
+
         if self._code.startswith("FM"):
             self._translation = f"{self._valid}"
         else:
-- 
2.43.0


From 765c919463a1750c416f9145d94a624a287b2f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 30/34] fix: periods of METAR trends with a malformed change
 indicator

---
 aeromet_py/reports/models/metar/trend_indicator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aeromet_py/reports/models/metar/trend_indicator.py b/aeromet_py/reports/models/metar/trend_indicator.py
index 0ad69e1..a597280 100755
--- a/aeromet_py/reports/models/metar/trend_indicator.py
+++ b/aeromet_py/reports/models/metar/trend_indicator.py
@@ -31,7 +31,10 @@ class MetarTrendIndicator(ChangeIndicator):
 
     def add_period(self, match: re.Match) -> None:
         """Helper to add periods of time to the change indicator."""
-        self._code += f" {match.string}"
+        if self._code is None:
+            self._code = match.string
+        else:
+            self._code += f" {match.string}"
 
         # The middle time between self._init_period and self._end_period
         middle_time: datetime = self._init_period.time + timedelta(hours=1)
-- 
2.43.0


From 5af323e9a53dc3426df3431dea4bbc3e0855aa27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:15 +0000
Subject: [PATCH 31/34] fix: text form of reports lost the contents and periods
 of TAF changes

---
 aeromet_py/reports/models/base/string_attribute.py | 10 +++++-----
 aeromet_py/reports/models/metar/weather_trend.py   |  4 ----
 aeromet_py/reports/models/taf/change_forecast.py   |  8 ++------
 3 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/aeromet_py/reports/models/base/string_attribute.py b/aeromet_py/reports/models/base/string_attribute.py
index aa60c96..fdd2129 100755
--- a/aeromet_py/reports/models/base/string_attribute.py
+++ b/aeromet_py/reports/models/base/string_attribute.py
@@ -1,4 +1,4 @@
-from typing import Any
+from typing import Any, List
 
 from typing_extensions import Protocol
 
@@ -12,11 +12,11 @@ class StringAttributeMixin:
     """Basic structure to add string helpers to the report."""
 
     def __init__(self) -> None:
-        # String buffer
-        self._string = ""
+        # Objects to represent as string
+        self._objects: List[Any] = []
 
     def __str__(self) -> str:
-        return self._string.strip()
+        return "\n".join(str(obj) for obj in self._objects).strip()
 
     def _concatenate_string(self, obj: Any) -> None:
-        self._string += str(obj) + "\n"
+        self._objects.append(obj)
diff --git a/aeromet_py/reports/models/metar/weather_trend.py b/aeromet_py/reports/models/metar/weather_trend.py
index 7263f42..7dd0224 100755
--- a/aeromet_py/reports/models/metar/weather_trend.py
+++ b/aeromet_py/reports/models/metar/weather_trend.py
@@ -91,11 +91,7 @@ class ChangePeriod(Forecast):
         return self._change_indicator
 
     def _handle_time_period(self, match: re.Match) -> None:
-        old_change_indicator = str(self._change_indicator)
         self._change_indicator.add_period(match)
-        new_change_indicator = str(self._change_indicator)
-
-        self._string = self._string.replace(old_change_indicator, new_change_indicator)
 
     def _parse(self) -> None:
         handlers: List[GroupHandler] = [
diff --git a/aeromet_py/reports/models/taf/change_forecast.py b/aeromet_py/reports/models/taf/change_forecast.py
index b895bfe..e2a3066 100755
--- a/aeromet_py/reports/models/taf/change_forecast.py
+++ b/aeromet_py/reports/models/taf/change_forecast.py
@@ -29,15 +29,11 @@ class ChangeForecasted(Forecast):
         # Parse groups
         self._parse()
 
-    def __str__(self) -> str:
-        self._string = ""
-        self._concatenate_string(self._change_indicator)
-
-        return self._string
-
     def _handle_change_indicator(self, match: re.Match) -> None:
         self._change_indicator = TafChangeIndicator(match, self._valid)
 
+        self._concatenate_string(self._change_indicator)
+
     @property
     def change_indicator(self) -> TafChangeIndicator:
         """Get the change indicator data of the change period."""
-- 
2.43.0


From 23751d6180bb581e44c2951d8e2c5e227e4eb85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:15 +0000
Subject: [PATCH 32/34] fix: zero quantities are values in text forms

---
 aeromet_py/reports/models/base/cloud.py         | 6 +++---
 aeromet_py/reports/models/base/distance.py      | 2 +-
 aeromet_py/reports/models/base/pressure.py      | 2 +-
 aeromet_py/reports/models/base/temperature.py   | 2 +-
 aeromet_py/reports/models/base/wind.py          | 6 +++---
 aeromet_py/reports/models/metar/runway_range.py | 2 +-
 aeromet_py/reports/models/metar/sea_state.py    | 4 ++--
 aeromet_py/reports/models/metar/temperatures.py | 2 +-
 aeromet_py/reports/models/metar/wind.py         | 2 +-
 9 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index f52b604..9b9f350 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -119,14 +119,14 @@ class Cloud(Group):
         )
 
     def __str__(self) -> str:
-        if self._type and self._height.value:
+        if self._type and self._height.value is not None:
             return "{} at {:.1f} feet of {}".format(
                 self._cover,
                 self.height_in_feet,
                 self._type,
             )
 
-        if self._height.value:
+        if self._height.value is not None:
             return "{} at {:.1f} feet".format(
                 self._cover,
                 self.height_in_feet,
@@ -136,7 +136,7 @@ class Cloud(Group):
             return self._cover
 
         if self._cover == SKY_COVER["VV"]:
-            if self._height.value:
+            if self._height.value is not None:
                 return self._cover + f" at {self.height_in_feet} feet"
             return self._cover
 
diff --git a/aeromet_py/reports/models/base/distance.py b/aeromet_py/reports/models/base/distance.py
index 38075d6..38b88a0 100755
--- a/aeromet_py/reports/models/base/distance.py
+++ b/aeromet_py/reports/models/base/distance.py
@@ -22,7 +22,7 @@ class Distance(Numeric):
             super().__init__(_distance)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " m"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/pressure.py b/aeromet_py/reports/models/base/pressure.py
index 2e600a5..2e0673a 100755
--- a/aeromet_py/reports/models/base/pressure.py
+++ b/aeromet_py/reports/models/base/pressure.py
@@ -19,7 +19,7 @@ class Pressure(Numeric):
             super().__init__(_pressure)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " hPa"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/temperature.py b/aeromet_py/reports/models/base/temperature.py
index 000e7ca..015793f 100755
--- a/aeromet_py/reports/models/base/temperature.py
+++ b/aeromet_py/reports/models/base/temperature.py
@@ -26,7 +26,7 @@ class Temperature(Numeric):
             super().__init__(_temperature)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + "°C"
 
         return super().__str__()
diff --git a/aeromet_py/reports/models/base/wind.py b/aeromet_py/reports/models/base/wind.py
index 4eac983..9bb1590 100755
--- a/aeromet_py/reports/models/base/wind.py
+++ b/aeromet_py/reports/models/base/wind.py
@@ -56,7 +56,7 @@ class Direction(Numeric):
         if self._variable:
             return "variable wind"
 
-        if self._value:
+        if self._value is not None:
             return super().__str__() + "°"
 
         return super().__str__()
@@ -152,7 +152,7 @@ class Speed(Numeric):
             super().__init__(_speed)
 
     def __str__(self) -> str:
-        if self._value:
+        if self._value is not None:
             return super().__str__() + " kt"
 
         return super().__str__()
@@ -199,7 +199,7 @@ class Wind:
         cardinal: str = self.cardinal_direction if self.cardinal_direction else ""
 
         direction: str = str(self._direction)
-        direction = f"({self._direction})" if self._direction.value else direction
+        direction = f"({self._direction})" if self._direction.value is not None else direction
 
         s: str = "{} {} {}".format(
             cardinal,
diff --git a/aeromet_py/reports/models/metar/runway_range.py b/aeromet_py/reports/models/metar/runway_range.py
index a9e0e95..04363bd 100755
--- a/aeromet_py/reports/models/metar/runway_range.py
+++ b/aeromet_py/reports/models/metar/runway_range.py
@@ -100,7 +100,7 @@ class MetarRunwayRange(Group):
         return "runway {} {}{}{}".format(
             self._name,
             self.low_range,
-            f" varying to {self.high_range}" if self._high_range.value else "",
+            f" varying to {self.high_range}" if self._high_range.value is not None else "",
             ", " + self._trend if self._trend else "",
         )
 
diff --git a/aeromet_py/reports/models/metar/sea_state.py b/aeromet_py/reports/models/metar/sea_state.py
index 3fbf8d9..f41b3fd 100755
--- a/aeromet_py/reports/models/metar/sea_state.py
+++ b/aeromet_py/reports/models/metar/sea_state.py
@@ -64,12 +64,12 @@ class MetarSeaState(Group):
 
         s: str = ""
 
-        if self._temperature.value:
+        if self._temperature.value is not None:
             s += f"temperature {self._temperature}, "
         else:
             s += "no temperature, "
 
-        if self._height.value:
+        if self._height.value is not None:
             s += f"significant wave height {self._height}, "
         else:
             s += "no significant wave height, "
diff --git a/aeromet_py/reports/models/metar/temperatures.py b/aeromet_py/reports/models/metar/temperatures.py
index 62b3230..e520575 100755
--- a/aeromet_py/reports/models/metar/temperatures.py
+++ b/aeromet_py/reports/models/metar/temperatures.py
@@ -28,7 +28,7 @@ class MetarTemperatures(Group):
     def __str__(self) -> str:
         if self._temperature.value is None and self._dewpoint.value is None:
             return ""
-        elif self._temperature.value is None and self._dewpoint.value:
+        elif self._temperature.value is None and self._dewpoint.value is not None:
             return f"no temperature | dewpoint: {self._dewpoint}"
         elif self._temperature.value is not None and self._dewpoint.value is None:
             return f"temperature: {self._temperature} | no dewpoint"
diff --git a/aeromet_py/reports/models/metar/wind.py b/aeromet_py/reports/models/metar/wind.py
index 1721bd8..476771c 100755
--- a/aeromet_py/reports/models/metar/wind.py
+++ b/aeromet_py/reports/models/metar/wind.py
@@ -29,7 +29,7 @@ class MetarWind(Wind, Group):
             self._gust = Speed(_gst)
 
     def __str__(self) -> str:
-        gust: str = " gust of " + str(self._gust) if self._gust.value else ""
+        gust: str = " gust of " + str(self._gust) if self._gust.value is not None else ""
 
         return super().__str__() + gust
 
-- 
2.43.0


From 42776f1c33a510bd1e7009191ab33c9c6985224f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:15 +0000
Subject: [PATCH 33/34] fix: text form of clouds with a type but no height

---
 aeromet_py/reports/models/base/cloud.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/aeromet_py/reports/models/base/cloud.py b/aeromet_py/reports/models/base/cloud.py
index 9b9f350..9d9db3f 100755
--- a/aeromet_py/reports/models/base/cloud.py
+++ b/aeromet_py/reports/models/base/cloud.py
@@ -132,17 +132,12 @@ class Cloud(Group):
                 self.height_in_feet,
             )
 
-        if self._cover in [SKY_COVER[item] for item in ["NSC", "NCD", "///"]]:
-            return self._cover
+        of_type: str = f" of {self._type}" if self._type else ""
 
-        if self._cover == SKY_COVER["VV"]:
-            if self._height.value is not None:
-                return self._cover + f" at {self.height_in_feet} feet"
-            return self._cover
+        if self._cover in [SKY_COVER[item] for item in ["NSC", "NCD", "///", "VV"]]:
+            return f"{self._cover}{of_type}"
 
-        return "{} at undefined height".format(
-            self._cover,
-        )
+        return f"{self._cover} at undefined height{of_type}"
 
     @property
     def cover(self) -> Optional[str]:
-- 
2.43.0


From 6d98e4379ddcbd9d400af878592e3d265f319ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:01 +0000
Subject: [PATCH 34/34] fix: decode only groups written with ASCII digits

---
 aeromet_py/reports/models/base/__init__.py | 2 +-
 aeromet_py/utils/parser.py                 | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aeromet_py/reports/models/base/__init__.py b/aeromet_py/reports/models/base/__init__.py
index 36a8c29..4a40311 100644
--- a/aeromet_py/reports/models/base/__init__.py
+++ b/aeromet_py/reports/models/base/__init__.py
@@ -40,7 +40,7 @@ def parse_section(handlers: List[GroupHandler], section: str) -> List[str]:
         counter = 0
 
         for group_handler in handlers[index:]:
-            match = re.match(group_handler.regexp, group)
+            match = re.match(group_handler.regexp, group, re.ASCII)
             counter += 1
 
             if match:
diff --git a/aeromet_py/utils/parser.py b/aeromet_py/utils/parser.py
index 317ea94..4959eb9 100755
--- a/aeromet_py/utils/parser.py
+++ b/aeromet_py/utils/parser.py
@@ -14,7 +14,7 @@ def sanitize_visibility(report: str) -> str:
     Returns:
         str: the sanitized report or section.
     """
-    regex = r"(?<!\S)(?P<int>\d{1,2})\s(?P<frac>\d/[1-9]SM)(?!\S)"
+    regex = r"(?<!\S)(?P<int>[0-9]{1,2})\s(?P<frac>[0-9]/[1-9]SM)(?!\S)"
 
     return re.sub(regex, r"\g<int>_\g<frac>", report)
 
@@ -31,7 +31,7 @@ def sanitize_windshear(report: str) -> str:
     """
     report = re.sub(r"(?<!\S)WS\sALL\sRWY(?!\S)", "WS_ALL_RWY", report)
 
-    fmt = r"(?<!\S)WS\sR(WY)?(?P<name>\d{2}[CLR]?)(?!\S)"
+    fmt = r"(?<!\S)WS\sR(WY)?(?P<name>[0-9]{2}[CLR]?)(?!\S)"
 
     return re.sub(fmt, r"WS_R\g<name>", report)
 
-- 
2.43.0

