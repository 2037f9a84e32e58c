#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os, sys
B="aeromet_py/reports/models/base/"; M="aeromet_py/reports/models/metar/"; T="aeromet_py/reports/models/taf/"; U="aeromet_py/utils/"; R="aeromet_py/reports/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","Every group of a report is accounted for exactly once",
"For any METAR, SPECI or TAF text, every group of the body, of each METAR trend and of each TAF change period is either decoded as an element of that part of the report or listed in unparsed_groups, never both, never neither, and no element or unparsed entry appears that the text does not contain. The report's unparsed_groups hold the body's undecoded groups in text order followed by those of each period in order, and each period's own unparsed_groups hold exactly its own. Repeated pressure groups are all decoded and the last one is the report's pressure.",
["inputs"],"all report texts: any sequence of well-formed, malformed, misplaced, repeated and unknown groups in body, trends and change periods",
"tests/metar/test_unparsed_groups.py checks ten fixed METARs; the guarantee is about every arrangement of groups and no TAF with unparsed groups is tested.",
[B+"__init__.py",R+"metar.py",R+"taf.py",M+"weather_trend.py",T+"change_forecast.py"],
[("parse_section scanner","aeromet_py/reports/models/base/__init__.py"),("unparsed groups of periods appended to the report","aeromet_py/reports/metar.py _parse_weather_trend, aeromet_py/reports/taf.py _parse_changes_forecasted")],
["Metar/Taf.unparsed_groups","period.unparsed_groups","every element's code / codes"],
[("unparsed_groups","groups no handler accepted","Report")])

p("C02","Groups are recognised only in reporting order and up to their limit",
"A report part is read as a fixed order of slots (METAR body: type, station, time, modifier, wind, wind variation, prevailing visibility, minimum visibility, 3 runway ranges, 3 weathers, 4 clouds, temperatures, 2 pressures, recent weather, 3 wind shears, sea state, runway state; TAF body: type, AMD/COR, station, time, NIL, validity, CNL, wind, visibility, 3 weathers, 4 clouds, 4 temperatures; periods: indicator, period of time, wind, visibility, 3 weathers, 4 clouds). Each group takes the first slot still ahead that accepts it and passes over the slots before it; a group that no slot ahead accepts (out of order, surplus or unknown) stays unparsed and leaves everything already decoded and every later group's treatment unchanged.",
["inputs"],"all sequences of groups, in and out of order, with any number of repetitions, in METAR bodies, METAR trends, TAF bodies and TAF change periods",
"Tests use well-ordered reports plus a handful of typos; which slot a group takes depends on the whole preceding sequence.",
[B+"__init__.py",R+"metar.py",R+"taf.py",M+"weather_trend.py",T+"change_forecast.py"],
[("handler tables","aeromet_py/reports/metar.py _parse_body; aeromet_py/reports/taf.py _parse_body; weather_trend.py/change_forecast.py _parse"),("index advance in parse_section","aeromet_py/reports/models/base/__init__.py")],
["codes of every element","unparsed_groups"])

p("C03","A malformed group never yields data",
"A group is decoded as an element only if the whole group, from its first to its last character, has that element's form; a group that only starts with, ends with or contains such a form, or departs from it in one character, leaves the element unset and stays in unparsed_groups. This holds for every kind of group in METAR bodies and trends and in TAF bodies and change periods.",
["inputs"],"all group texts, in particular all one-character departures (inserted, deleted, replaced, appended, truncated) from valid groups of every kind in every report part",
"Tests contain about a dozen hand-made typos, all in METAR bodies.",
[U+"metar_regexp.py",U+"taf_regexp.py",U+"parser.py"],
[("anchored group patterns","aeromet_py/utils/metar_regexp.py, aeromet_py/utils/taf_regexp.py"),("joining of two-word groups","aeromet_py/utils/parser.py")],
["unparsed_groups","every element's code and values"])

p("C04","Parsing any text ends, and ends without an undocumented error",
"For any non-empty printable ASCII text whose report day exists in the given month, building a Metar or Taf with truncate off ends and gives an object whose documented properties, str(), as_dict(), to_json(), ceiling, flight_rules and should_be_cavok() can all be read. The only errors building may raise are RangeError, when the text has more trends, changes or temperatures than the report can hold, and with truncate on ParserError.",
["inputs"],"all printable ASCII texts with blanks, tabs and newlines: real reports, mutated reports, shuffled and random groups; every year/month for which the report's day exists",
"Tests only build reports chosen to parse; nothing explores malformed text systematically.",
[R+"metar.py",R+"taf.py",B+"__init__.py",B+"cloud.py",M+"visibility.py",M+"trend_indicator.py",T+"change_indicator.py",T+"change_forecast.py"],
[("handlers only receive text their pattern accepted","aeromet_py/reports/models/base/__init__.py"),("capacity guard","aeromet_py/reports/models/base/group.py")],
["constructor outcome","every documented property"])

p("C05","truncate raises ParserError exactly when something is unparsed",
"With truncate on, building a report raises ParserError if and only if the same text with truncate off has a non-empty unparsed_groups; the message names every unparsed group, in order, and the report text. When nothing is unparsed the report is the same with and without truncate, and truncate off never raises ParserError.",
["inputs","configurations"],"all texts, truncate on and off, unparsed groups in the body, in the first or a later period, or in several places",
"No test passes truncate=True at all.",
[R+"metar.py",R+"taf.py"],[("truncate check after the last section","aeromet_py/reports/metar.py _parse_weather_trend; aeromet_py/reports/taf.py _parse_changes_forecasted")],
["ParserError and its text","as_dict() of both builds"])

p("C06","Sections partition the report text",
"A METAR splits into exactly body, trend and remark: a word beginning with NOSIG, TEMPO or BECMG starts a part of the trend and one beginning with RMK a part of the remark, each up to the next such word, and everything else is body; a TAF splits into body and changes, each change starting at a word beginning with FM, TEMPO, BECMG or PROB (a PROB followed by TEMPO being one change; TAF, AMD or COR at the start and the word after them never start one). Every word of the text is in exactly one section, in order within it, and body, trend, remark and weather_changes equal the corresponding items of sections.",
["inputs"],"all texts with any number and order of NOSIG/TEMPO/BECMG/RMK/FM/PROB words, including remarks containing trends, several remarks and none",
"Six fixed examples; splitting depends on the order and repetition of keywords.",
[R+"metar.py",R+"taf.py",U+"split.py",U+"parser.py"],[("split_sentence","aeromet_py/utils/split.py"),("_handle_sections","aeromet_py/reports/metar.py, aeromet_py/reports/taf.py")],
["sections","body","trend","remark","weather_changes","codes of trends and changes"])

p("C07","White space and the end sign do not change the result",
"Leading and trailing blanks, runs of blanks, tabs, newlines (LF or CRLF) and indentation between groups, and '=' end signs (attached or separate) do not influence the parse: the report is the same as that of the text with single blanks and no '='. raw_code is that single-blank text.",
["inputs"],"all reports and all ways to lay them out with blanks, tabs, LF/CRLF and end signs, including between the two words of a compound group",
"Tests use a few fixed layouts and compare single fields only.",
[B+"report.py",B+"__init__.py",U+"parser.py"],[("raw code clean-up","aeromet_py/reports/models/base/report.py"),("splitting of groups","aeromet_py/reports/models/base/__init__.py")],
["raw_code","as_dict() of both layouts"])

p("C08","The report time is the day, hour and minute written, in the given month",
"The time of a METAR or TAF is the UTC instant with the day, hour and minute of its time group in the year and month given by the caller, each defaulting to the current UTC year or month at the moment of parsing. Without a time group it is the first of that month at 00:00. With year and month given the parse result does not depend on the clock.",
["inputs","configurations","histories"],"all DDHHMM groups, all years and months (leap years included), year and/or month omitted, any wall-clock moment (month and year ends, before and after a rollover in one process) and any local time zone",
"Tests parse a few fixed times under one pinned clock.",
[B+"time.py",R+"metar.py",R+"taf.py"],[("Time.from_metar","aeromet_py/reports/models/base/time.py")],
["time.time, year, month, day, hour, minute, code"])

p("C09","METAR trend periods resolve within the two hours after the report",
"A METAR trend runs from the report time until two hours later; FMhhmm replaces its start, TLhhmm its end and AThhmm sets its moment. Each hhmm within those two hours (2400 meaning midnight) resolves to the instant in the window that reads hhmm, across hour, day, month and year ends, whichever of FM/TL/AT are present, and a second trend's period is resolved independently of the first.",
["inputs"],"all report times (minute, day, month and year ends, leap days), all indicator kinds, all combinations of FM/TL/AT with every hhmm in the window, in the first and second trend",
"Tests have six examples, one of them across midnight.",
[M+"trend_indicator.py",M+"weather_trend.py"],[("add_period","aeromet_py/reports/models/metar/trend_indicator.py")],
["weather_trends[i].trend_indicator.forecast_period/period_from/period_until/period_at/code/translation"])

p("C10","The TAF validity resolves to the written days and hours",
"A TAF's valid period starts at the first instant, on or after the day of issue, with the written start day and hour, and ends at the first instant, on or after the start day, with the written end day and hour, hour 24 being 00:00 of the next day. This holds across month and year ends and for validities reaching the second day after the issue, and duration is the difference of the two.",
["inputs"],"all issue times and validities of up to 36 hours starting up to two days after the issue, in every month of leap and common years",
"Tests cover six examples, none reaching the second day after the issue.",
[T+"valid.py"],[("Valid.from_taf","aeromet_py/reports/models/taf/valid.py")],
["valid.period_from, period_until, duration, code"])

p("C11","TAF change periods resolve within the TAF's validity",
"The period of a TEMPO, BECMG, PROBnn or PROBnn TEMPO change starts at the first instant on or after the day the TAF becomes valid with the written start day and hour, and ends at the first one on or after that with the written end day and hour (24 is the next midnight); an FM change starts at its written day, hour and minute. A change with no period of its own covers the TAF's validity, and each change's code, translation and period describe its own indicator.",
["inputs"],"all TAF validities up to 36 h and all change periods inside them, every indicator kind, across month and year ends",
"Tests cover a few fixed changes in mid-month.",
[T+"change_indicator.py",T+"valid.py",T+"change_forecast.py"],[("set_valid_period / FM resolution","aeromet_py/reports/models/taf/change_indicator.py")],
["changes_forecasted[i].change_indicator.valid/code/translation"])

p("C12","Each FM change ends one hour before the next FM or BECMG change",
"In a TAF, an FM change ends one hour before the start of the next FM or BECMG change in the report, or with the TAF's validity if none follows; PROB and TEMPO changes in between neither end it nor are altered. All changes are kept, in the order written, each with its own content, and the other changes' periods are not affected by those that follow.",
["inputs","histories"],"all sequences of up to eight changes of every kind (FM, BECMG, TEMPO, PROB, PROB TEMPO), with increasing times",
"Three example TAFs; the outcome depends on the whole sequence of changes.",
[T+"change_forecast.py",T+"change_indicator.py"],[("TafChangesForecasted.add","aeromet_py/reports/models/taf/change_forecast.py"),("reset_until_period","aeromet_py/reports/models/taf/change_indicator.py")],
["changes_forecasted codes, change_indicator.valid and translation"])

p("C13","TAF temperatures carry their value, kind and instant",
"Each TX group of a TAF body is one maximum and each TN group one minimum temperature, at most two of each, in the order written, with the written value (M meaning negative) and the first instant on or after the day of issue with the written day and hour. A third maximum or minimum raises RangeError.",
["inputs"],"all values -99..99, all days and hours of the validity (including the second day after the issue), all mixes and orders of up to four groups, month and year ends",
"Four example TAFs, none beyond the day after the issue.",
[T+"temperature.py",R+"taf.py"],[("TafTemperature","aeromet_py/reports/models/taf/temperature.py"),("_handle_temperature","aeromet_py/reports/taf.py")],
["max_temperatures/min_temperatures: codes, in_celsius, time"])

p("C14","Wind groups decode to the reported wind",
"A wind group decodes to its direction in degrees (none when not reported or variable, variable true only for VRB), its 16-point cardinal direction, its speed and its gust in knots (m/s converted), each none when missing or not reported; a wind variation decodes to its two directions. The same holds in METAR bodies and trends and in TAF bodies and changes.",
["inputs"],"all well-formed wind and wind variation groups in every report part",
"Tests sample about twenty winds; directions, speeds, gusts, units and positions combine freely.",
[M+"wind.py",M+"wind_variation.py",B+"wind.py"],[("MetarWind","aeromet_py/reports/models/metar/wind.py"),("Direction.cardinal","aeromet_py/reports/models/base/wind.py")],
["wind and wind_variation properties"])

p("C15","Visibility groups decode to the reported visibility",
"A prevailing visibility decodes to its distance in metres: four digits as metres with 9999 meaning 10 km, statute forms nSM, n/dSM and n n/dSM as (n + n/d) times 1852 m, nKM as n km, CAVOK as 10 km with cavok true, //// and unit-only forms as none; a direction suffix decodes to that cardinal direction and its degrees. A minimum visibility decodes likewise from its four digits and direction.",
["inputs"],"all well-formed visibility groups in every report part, one- and two-word statute forms",
"Tests sample about twenty visibilities.",
[M+"visibility.py",B+"distance.py",U+"parser.py"],[("MetarPrevailingVisibility","aeromet_py/reports/models/metar/visibility.py"),("sanitize_visibility","aeromet_py/utils/parser.py")],
["prevailing_visibility and minimum_visibility properties"])

p("C16","Cloud groups decode to the layer and decide the ceiling",
"A cloud group decodes to its cover, oktas, base height (hundreds of feet, none if missing or not reported) and cloud type, in report order. ceiling is true exactly when some layer is broken or overcast with a known base of at most 1500 feet.",
["inputs"],"all well-formed cloud groups, all lists of up to four layers, in every report part",
"Tests sample about thirty layers; ceiling depends on the combination of layers.",
[B+"cloud.py",M+"cloud.py"],[("Cloud.from_metar","aeromet_py/reports/models/base/cloud.py"),("CloudList.ceiling","aeromet_py/reports/models/base/cloud.py")],
["clouds properties, ceiling"])

p("C17","Weather groups decode to the reported phenomena",
"A weather group decodes to the intensity or proximity, descriptor and one phenomenon (precipitation, obscuration or other) its codes stand for and nothing else; a recent weather group (RE) decodes its descriptor and phenomena the same way. Up to three present weathers are kept in order, in METAR bodies and trends and in TAF bodies and changes.",
["inputs"],"all combinations of intensity, descriptor and phenomenon codes, all lists of up to three groups, every report part",
"Tests sample about forty of several hundred combinations.",
[M+"weather.py",M+"recent_weather.py"],[("MetarWeather","aeromet_py/reports/models/metar/weather.py"),("MetarRecentWeather","aeromet_py/reports/models/metar/recent_weather.py")],
["weathers, recent_weather properties"])

p("C18","Temperature, dew point, pressure and sea groups decode to their values",
"A temperature group decodes to the temperature and dew point in whole degrees Celsius, M or - meaning negative and //, XX, MM none. A pressure group decodes to hectopascals: Q and QNH as written, A, INS and plain numbers above 2500 as hundredths of an inch of mercury, //// none. A sea group decodes to water temperature and either the state of the sea or the wave height in decimetres.",
["inputs"],"all well-formed temperature, pressure and sea groups, one or two pressure groups in any units",
"Tests sample a few values of each.",
[M+"temperatures.py",M+"pressure.py",M+"sea_state.py",B+"temperature.py",B+"pressure.py"],
[("MetarTemperatures","aeromet_py/reports/models/metar/temperatures.py"),("MetarPressure","aeromet_py/reports/models/metar/pressure.py"),("MetarSeaState","aeromet_py/reports/models/metar/sea_state.py")],
["temperatures, pressure, sea_state properties"])

p("C19","Runway groups decode to the runway and its reported state",
"A runway visual range decodes to its runway name, its low and high ranges in metres (feet converted) with their below/above marks, and its tendency. A wind shear group names its runway or all runways, and a runway state decodes its runway, deposit, extent, depth and friction, or SNOCLO or CLRD, by the code tables. Left, right and centre runways, and 88 (all) and 99 (repeated) in runway states, are named as such. The list of wind shears names the runways of its groups in order and says whether all runways are meant.",
["inputs"],"all well-formed runway range, wind shear (WS Rnn, WS RWYnn, WS ALL RWY) and runway state groups, up to three ranges and shears",
"Tests sample a few groups; depth, friction and deposit tables are barely touched.",
[M+"runway_range.py",M+"windshear.py",M+"runway_state.py",U+"parser.py"],[("set_runway_name","aeromet_py/reports/models/metar/runway_range.py"),("code tables","aeromet_py/reports/models/metar/runway_state.py")],
["runway_ranges, windshears, runway_state properties"])

p("C20","Flight rules follow ceiling and visibility",
"flight_rules of a METAR, TAF, trend or change is the worst of VLIFR, LIFR, IFR, MVFR, VFR given by the base of its first broken, overcast or indefinite layer (below 60, 150, 300, 900 m) and by its prevailing visibility (below 800, 1600, 5000, 8000 m); it is VFR when neither is below a limit and none only when neither is known.",
["inputs"],"all combinations of visibility and up to four cloud layers in every report part, at and around each limit, with missing values",
"Tests have five reports per class, none at a limit, none beyond 20 km, and only one trend.",
[B+"flight_rules.py"],[("FlightRulesMixin.flight_rules","aeromet_py/reports/models/base/flight_rules.py")],
["flight_rules"])

p("C21","should_be_cavok is true only for proven CAVOK conditions",
"should_be_cavok() of a report, trend or change is true exactly when no weather is given, the prevailing visibility is known and at least 10 km, at least one cloud group is given, none is a vertical visibility, cumulonimbus or towering cumulus, every layer that is not clear has a known base and no base is below 5000 feet. Missing data give false, never an error.",
["inputs"],"all combinations of visibility, weathers and up to four cloud groups around the limits, in every report part, with missing values",
"Tests use about forty routine reports.",
[M+"should_be_cavok.py"],[("ShouldBeCavokMixin.should_be_cavok","aeromet_py/reports/models/metar/should_be_cavok.py")],
["should_be_cavok()"])

p("C22","Group lists behave as bounded, independently iterable sequences",
"Every list of groups of a report yields all its items in order each time it is iterated, no matter how many other iterations of it are unfinished, nested or abandoned; next() on the list itself walks through the items, ends, and begins anew, whatever iterators do. len, codes, items and indexing agree with that order, an index at or above the list's limit raises RangeError, one within the limit but without item IndexError, and a negative one counts from the end; adding to a full list raises RangeError and leaves it unchanged.",
["histories"],"all interleavings of starting, advancing and abandoning iterations, indexing, adding and deriving values on every kind of list",
"Tests index and iterate once each; iteration state across calls is never exercised.",
[B+"group.py",T+"change_forecast.py"],[("GroupList","aeromet_py/reports/models/base/group.py")],
["iteration, len, [], codes, items, add"],
[("iteration position","where an iteration stands","GroupList")])

p("C23","Reading a report never changes it and reports are independent",
"Reading properties, iterating lists, calling str, as_dict, to_json, ceiling, flight_rules or should_be_cavok any number of times in any order gives the same answers as on a freshly parsed report. Reports parsed earlier or later in the same process, also concurrently in threads, the order of parsing and what a caller does with the dictionaries and lists one of them returned do not influence the others, and parsing writes nothing to standard output or error.",
["histories","schedules"],"all sequences of read operations on one report, all interleavings of operations on several reports, parse orders and thread schedules",
"Each test builds one report and reads each value once.",
[B+"group.py",B+"report.py",M+"weather_trend.py",M+"should_be_cavok.py",T+"change_forecast.py"],[("read-only properties over per-instance fields","aeromet_py/reports/models")],
["all read operations, stdout, stderr"])

p("C24","Dictionaries and JSON tell what the properties tell",
"as_dict() of a report, trend, change, list and element holds under each documented key the value the corresponding property has (times as 'YYYY-MM-DD HH:MM:SS', lists of a report keyed first, second, third...), and to_json() is the JSON text of as_dict() and always serialisable. The length of an element is that of its code, 0 for one that is not reported. No element of the report is missing from or extra in its list.",
["inputs"],"all reports of both kinds with any number of groups of every kind present or absent",
"Tests compare dictionaries of single hand-picked groups; whole-report dictionaries and to_json are not tested.",
[R+"metar.py",R+"taf.py",B+"group.py",B+"report.py",M+"weather_trend.py"],[("as_dict","every class of aeromet_py/reports/models")],
["as_dict(), to_json()"])

p("C25","All unit views of a quantity agree",
"For every speed, gust, direction, distance, height, temperature and pressure, its views in different units are the same quantity under the standard conversion (knot 0.514444 m/s, 1.852 km/h, 1.15078 mph; foot 0.3048 m; sea mile 1852 m; degree pi/180 rad and 10/9 grad; inHg 33.8639 hPa; atm 1013.25 hPa; Kelvin, Fahrenheit and Rankine offsets), and either all views are present or all are none. The public conversion factors and temperature functions give the same, and each function undoes its opposite. A Direction, Speed, Distance, Temperature or Pressure built directly from a number's text has that value and these views, and a direction the one of the sixteen cardinal points in whose sector it lies.",
["inputs"],"all decoded values of every element offering several units, zero, negative and unreported values included",
"Tests compare a few constants at a few values; zero and negative values are seldom seen.",
[U+"conversions.py",B+"numeric.py",B+"distance.py",B+"temperature.py",B+"pressure.py",B+"wind.py",M+"sea_state.py",M+"runway_range.py"],[("Numeric.converted","aeromet_py/reports/models/base/numeric.py"),("factors","aeromet_py/utils/conversions.py")],
["all in_* / *_in_* properties"])

p("C26","A group means the same wherever it is reported and stays in its part",
"A wind, visibility, weather or cloud group decodes to the same values in a METAR body, a METAR trend, a TAF body and a TAF change, in each of these that has such a group (a TAF body has no unknown visibility). Groups of one part never show up in, or alter, the elements of another part: changing, adding or removing groups in a trend or change leaves the body and the other periods' contents as they were, and the remark influences nothing.",
["inputs"],"all wind, visibility, weather and cloud groups in all four parts, all pairs of contents for body and periods",
"Tests exercise each part separately on different values.",
[R+"metar.py",R+"taf.py",M+"weather_trend.py",T+"change_forecast.py"],[("shared element mixins","aeromet_py/reports/models/metar"),("per-part handler tables","aeromet_py/reports")],
["elements of body and periods"])

p("C27","The station is looked up by its ICAO code",
"The station of a report is the database entry whose ICAO code equals the station group, with that entry's name, IATA and SYNOP codes, coordinates and elevation and the country name of its country code. If no entry has the code all of these are none while the code is kept, and never another station's data are shown. A Station built from an IATA or SYNOP code shows in the same way an entry with that code in that column.",
["inputs"],"every station in the database and codes that are not in it, near misses included",
"Tests look up a handful of stations.",
[B+"station.py","aeromet_py/database/stations.py","aeromet_py/database/countries.py"],[("Station._get_data","aeromet_py/reports/models/base/station.py"),("get_country","aeromet_py/database/countries.py")],
["station properties"])

p("C28","Type, modifier, missing and cancelled state follow their groups",
"type_ is the written METAR, SPECI or TAF, defaulting to METAR for Metar and TAF for Taf; modifier is the one written in its position with its description, none otherwise. A TAF is missing exactly when NIL, and cancelled exactly when CNL, stands in its place, and all elements not written are present as objects whose values are none, false or empty.",
["inputs"],"all combinations of optional type, modifier, NIL and CNL groups with the other groups present or absent",
"Tests check a few reports for each flag; absence is checked one element at a time.",
[B+"type.py",B+"modifier.py",T+"missing.py",T+"cancelled.py",R+"metar.py",R+"taf.py"],[("ReportType/Modifier/Missing/Cancelled","aeromet_py/reports/models")],
["type_, modifier, missing, cancelled and all elements' defaults"])

p("C29","The text form of a report says what its elements say",
"str() of an element states the values its properties have: an absent element gives the empty text, a reported value of zero is stated like any other, numbers are rounded to one decimal, and a part that was not reported is left out or said to be missing. str() of a list joins its items' texts with ' | '. str() of a report, trend or change is one line per decoded group, in reading order, each the text of its element; trends and changes start with their indicator and the period their properties show, followed by their own elements.",
["inputs"],"all METAR, SPECI and TAF texts: every value of every element, zero and missing ones included, and every combination of elements, trends and changes",
"Tests pin the text of some elements at a few ordinary values and never that of a whole report or TAF change.",
[B+"string_attribute.py",B+"group.py",B+"cloud.py",B+"wind.py",M+"sea_state.py",M+"temperatures.py",M+"runway_state.py",M+"weather_trend.py",T+"change_forecast.py"],[("StringAttributeMixin._concatenate_string","aeromet_py/reports/models/base/string_attribute.py"),("__str__ of the elements","aeromet_py/reports/models")],
["str() of reports, trends, changes, lists and elements"])

p("C30","The text helpers cut and join sentences without losing anything",
"split_sentence(sentence, keywords, count, space) cuts a sentence right before every occurrence of a keyword (a plain word), keyword after keyword, from the left and at most count times each when count is not 0; space 'left', 'right' or 'both' takes only keywords with a blank on that side. Joined again the pieces give the sentence, less the blank before a keyword with 'left' or 'both'. sanitize_visibility, sanitize_windshear and sanitize_change_indicator put an underscore for each single blank within '1 1/2SM', 'WS R10', 'WS RWY10' (shown as WS_R10), 'WS ALL RWY' and 'PROB30 TEMPO' standing as whole words, every time they occur, and change nothing else.",
["inputs"],"all sentences, lists of keywords, counts and sides; all sequences of words around the groups of two and three words",
"No test calls the helpers; reports use one of the four sides and no count.",
[U+"split.py",U+"parser.py"],[("split_sentence","aeromet_py/utils/split.py"),("sanitize_*","aeromet_py/utils/parser.py")],
["values returned by split_sentence and the sanitize functions"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=True)+"\n")
try:
    import jsonschema
    s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P: jsonschema.validate(x,s)
    print("valid",len(P))
except ImportError: print(len(P))
for x in P:
    assert len(x["title"])<=80,x["id"]
