-------------------------------- MODULE Relate ------------------------------
(* Records that relate views of the same thing: a report built in two ways,  *)
(* its properties and its dictionaries, the units of a quantity, the same    *)
(* group in two places, a station and its entry in the database.  Fails(o)   *)
(* is the set of what is not as property PROP has it.                        *)
EXTENDS Sections, Decode, Helpers, Json, IOUtils
VARIABLES cur, verdict
Log == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP
Must(b, s) == IF b THEN {} ELSE {s}
Outcomes == {"ok", "RangeError"}

---------------------------------------------------------------------------
(* C05.  Without truncate: out, allunparsed, raw; with it: tout, msg.        *)
Message(o) == LET f == Find(o.msg, o.raw, 1) IN
              f # 0 /\ (\/ InOrder(SubSeq(o.msg, 1, f - 1), o.allunparsed, 1, 1)
                        \/ InOrder(SubSeq(o.msg, f + Len(o.raw), Len(o.msg)), o.allunparsed, 1, 1))
TruncateFails(o) ==
  Must(o.out \in Outcomes, "without truncate: " \o o.out)
  \cup (IF o.out # "ok" THEN Must(o.tout \in {"RangeError", "ParserError"}, "with truncate: " \o o.tout)
        ELSE IF o.allunparsed = <<>> THEN Must(o.tout = "ok", "with truncate: " \o o.tout) \cup Must(o.tout # "ok" \/ o.d = o.td, "differs with truncate")
        ELSE Must(o.tout = "ParserError", "with truncate: " \o o.tout) \cup Must(o.tout # "ParserError" \/ Message(o), "message: " \o o.msg))

---------------------------------------------------------------------------
(* C07.                                                                      *)
LayoutFails(o) ==
  Must(RawCode(o.text) = o.canon, "the case is not a layout of its report")
  \cup Must(o.out = o.cout, o.out \o " but " \o o.cout)
  \cup Must(o.out \in Outcomes, o.out)
  \cup (IF o.out = "ok" /\ o.cout = "ok" THEN Must(o.raw = o.canon, "raw_code") \cup Must(o.differs = "", "differs at " \o o.differs) ELSE {})

---------------------------------------------------------------------------
(* C24.  Shape[role]: path in the dictionary of an element -> its property,  *)
(* a text beginning with "=" standing for itself.                            *)
\* (a text beginning with "!": that value)
WindShape == [x \in {} |-> ""]
             @@ ("direction.cardinal" :> "cardinal_direction") @@ ("direction.variable" :> "variable") @@ ("direction.units" :> "=degrees")
             @@ ("direction.direction" :> "direction_in_degrees") @@ ("speed.units" :> "=knot") @@ ("speed.speed" :> "speed_in_knot")
             @@ ("gust.units" :> "=knot") @@ ("gust.speed" :> "gust_in_knot") @@ ("code" :> "code")
DirShape(key, p) == ((key \o ".variable") :> "!false") @@ ((key \o ".cardinal") :> (p \o "cardinal_direction")) @@ ((key \o ".units") :> "=degrees") @@ ((key \o ".direction") :> (p \o "in_degrees"))
MinVisShape == ("direction.variable" :> "!false") @@ ("direction.cardinal" :> "cardinal_direction") @@ ("direction.units" :> "=degrees") @@ ("direction.direction" :> "direction_in_degrees")
               @@ ("visibility.units" :> "=meters") @@ ("visibility.distance" :> "in_meters") @@ ("code" :> "code")
TafTempShape == ("units" :> "=celsius") @@ ("temperature" :> "in_celsius") @@ ("datetime" :> "time")
Same(ns) == [n \in ns |-> n]
Shape ==
  ("type" :> (("type" :> "type_") @@ ("code" :> "code")))
  @@ ("station" :> Same({"name", "icao", "iata", "synop", "latitude", "longitude", "elevation", "country", "code"}))
  @@ ("time" :> (("datetime" :> "time") @@ ("code" :> "code")))
  @@ ("modifier" :> (("modifier" :> "description") @@ ("code" :> "code")))
  @@ ("wind" :> WindShape)
  @@ ("windvar" :> (DirShape("from_", "from_") @@ DirShape("to", "to_") @@ ("code" :> "code")))
  @@ ("vis" :> (MinVisShape @@ ("cavok" :> "cavok")))
  @@ ("minvis" :> MinVisShape)
  @@ ("rvr" :> (Same({"name", "trend", "code"}) @@ ("rvr_low" :> "lowmark") @@ ("rvr_high" :> "highmark") @@ ("low_range.units" :> "=meters") @@ ("low_range.distance" :> "low_in_meters")
                @@ ("high_range.units" :> "=meters") @@ ("high_range.distance" :> "high_in_meters")))
  @@ ("weather" :> Same({"intensity", "description", "precipitation", "obscuration", "other", "code"}))
  @@ ("cloud" :> (Same({"cover", "oktas", "code"}) @@ ("height_units" :> "=meters") @@ ("height" :> "height_in_meters") @@ ("type" :> "cloud_type")))
  @@ ("temps" :> (("temperature.units" :> "=celsius") @@ ("temperature.temperature" :> "temperature_in_celsius") @@ ("dewpoint.units" :> "=celsius")
                  @@ ("dewpoint.temperature" :> "dewpoint_in_celsius") @@ ("code" :> "code")))
  @@ ("press" :> (("units" :> "=hectopascals") @@ ("pressure" :> "in_hPa")))
  @@ ("recent" :> Same({"description", "precipitation", "obscuration", "other", "code"}))
  @@ ("shear" :> (("all" :> "all_") @@ ("name" :> "name") @@ ("code" :> "code")))
  @@ ("sea" :> (Same({"state", "code"}) @@ ("temperature.units" :> "=celsius") @@ ("temperature.temperature" :> "temperature_in_celsius")
                @@ ("height.units" :> "=meters") @@ ("height.distance" :> "height_in_meters")))
  @@ ("rwystate" :> Same({"name", "deposits", "contamination", "deposits_depth", "surface_friction", "snoclo", "clrd", "code"}))
  @@ ("nil" :> Same({"is_missing", "code"}))
  @@ ("cnl" :> Same({"is_cancelled", "code"}))
  @@ ("valid" :> (("from_.datetime" :> "period_from") @@ ("until.datetime" :> "period_until") @@ ("code" :> "code")))
  @@ ("tmax" :> TafTempShape) @@ ("tmin" :> TafTempShape)
  @@ ("trendind" :> (("forecast_period.init.datetime" :> "init") @@ ("forecast_period.end.datetime" :> "end") @@ ("from_.datetime" :> "period_from")
                     @@ ("until.datetime" :> "period_until") @@ Same({"translation", "code"})))
  @@ ("changeind" :> (("valid.from_.datetime" :> "from") @@ ("valid.until.datetime" :> "until") @@ Same({"translation", "code"})))

\* the value the properties p prescribe for a shape entry
Value(p, e) == IF Starts(e, "=") THEN "s:" \o SubSeq(e, 2, Len(e)) ELSE IF Starts(e, "!") THEN SubSeq(e, 2, Len(e)) ELSE IF e \in DOMAIN p THEN p[e] ELSE "no property " \o e
NodeFails(x) ==
  {x.role \o "." \o k : k \in {k \in DOMAIN Shape[x.role] : k \notin DOMAIN x.flat \/ x.flat[k] # Value(x.p, Shape[x.role][k])}}
  \cup Must(x.dict = x.json, x.role \o ".to_json")
  \cup Must("code" \notin DOMAIN x.p \/ x.len = ToString(IF x.p.code = "none" THEN 0 ELSE Len(x.p.code) - 2), "len of " \o x.role)
  \cup (IF x.role # "trendind" THEN {}
        ELSE IF x.p.period_at = "none" THEN Must("at" \in DOMAIN x.flat /\ x.flat.at = "none", "trendind.at")
        ELSE Must("at.datetime" \in DOMAIN x.flat /\ x.flat["at.datetime"] = x.p.period_at, "trendind.at"))

Labels == <<"first", "second", "third", "fourth", "fifth", "sixth", "seventh", "eighth", "nineth", "tenth">>
\* entries, label -> digest, holds exactly the digests ds, in order, under the labels
Labelled(entries, ds) == entries = [x \in {Labels[i] : i \in 1..Len(ds)} |-> ds[CHOOSE i \in 1..Len(ds) : Labels[i] = x]]
Numbered(entries, ds) == entries = [x \in {ToString(i - 1) : i \in 1..Len(ds)} |-> ds[CHOOSE i \in 1..Len(ds) : ToString(i - 1) = x]]
Dicts(ns) == [i \in 1..Len(ns) |-> ns[i].dict]
ListFails(n, x, labelled) ==
  Must(x.len = Len(x.nodes), n \o ": length")
  \cup Must(Labelled(x.own, Dicts(x.nodes)), n \o ".as_dict")
  \cup Must(x.dict = x.json, n \o ".to_json")
  \cup Must(IF labelled THEN Labelled(x.entries, Dicts(x.nodes)) ELSE Numbered(x.entries, Dicts(x.nodes)) \/ Labelled(x.entries, Dicts(x.nodes)), n \o ": its entries")
  \cup UNION {NodeFails(x.nodes[i]) : i \in 1..Len(x.nodes)}
Key == ("type" :> "type_") @@ ("station" :> "station") @@ ("time" :> "time") @@ ("modifier" :> "modifier") @@ ("wind" :> "wind") @@ ("windvar" :> "wind_variation")
       @@ ("vis" :> "prevailing_visibility") @@ ("minvis" :> "minimum_visibility") @@ ("temps" :> "temperatures") @@ ("press" :> "pressure")
       @@ ("recent" :> "recent_weather") @@ ("sea" :> "sea_state") @@ ("rwystate" :> "runway_state") @@ ("nil" :> "missing") @@ ("valid" :> "valid") @@ ("cnl" :> "cancelled")
Entry(t, k, v) == Must(k \in DOMAIN t /\ t[k] = v, "key " \o k)
PartFails(x, labelled) ==
  UNION {NodeFails(x.nodes[n]) : n \in DOMAIN x.nodes}
  \cup UNION {Entry(x.top, Key[n], x.nodes[n].dict) : n \in DOMAIN x.nodes}
  \cup UNION {ListFails(n, x.lists[n], labelled) : n \in DOMAIN x.lists}
DictFails(o) ==
  IF o.out # "ok" THEN Must(o.out = "RangeError", o.out)
  ELSE PartFails(o, TRUE)
       \cup Must(o.dict = o.json, "to_json")
       \cup Entry(o.top, "code", o.p.raw_code) \cup Entry(o.top, "sections", o.sections) \cup Entry(o.top, "unparsed_groups", o.unparsed)
       \cup (IF o.kind = "METAR" THEN Entry(o.top, "remark", o.p.remark) \cup Entry(o.top, "flight_rules", o.p.flight_rules) ELSE {})
       \cup Must(Labelled(o.plabels, [i \in 1..Len(o.periods) |-> o.periods[i].dict]) /\ o.pentries = o.plabels, "periods")
       \cup UNION {LET x == o.periods[i] IN
                   PartFails(x, FALSE) \cup NodeFails(x.ind) \cup Must(x.dict = x.json, "period.to_json")
                   \cup Entry(x.top, "code", x.p.code) \cup Entry(x.top, "flight_rules", x.p.flight_rules) : i \in 1..Len(o.periods)}

---------------------------------------------------------------------------
(* C25.  View(u, b): the view in unit u of a quantity that is b in its base. *)
View(u, b) ==
  CASE u \in {"degrees", "knot", "meters", "celsius", "hPa", "mbar", "value"} -> b
    [] u = "radians"     -> QMul(b, Q(17453293, 1000000000))
    [] u = "gradians"    -> QMul(b, Q(10, 9))
    [] u = "mps"         -> QMul(b, Q(514444, 1000000))
    [] u = "kph"         -> QMul(b, Q(1852, 1000))
    [] u = "miph"        -> QMul(b, Q(115078, 100000))
    [] u = "kilometers"  -> QMul(b, Q(1, 1000))
    [] u = "sea_miles"   -> QMul(b, Q(1, 1852))
    [] u = "feet"        -> QMul(b, Q(10000, 3048))
    [] u = "decimeters"  -> QMul(b, QI(10))
    [] u = "centimeters" -> QMul(b, QI(100))
    [] u = "inches"      -> QMul(b, Q(10000, 254))
    [] u = "kelvin"      -> QAdd(b, Q(27315, 100))
    [] u = "fahrenheit"  -> QAdd(QMul(b, Q(9, 5)), QI(32))
    [] u = "rankine"     -> QAdd(QMul(b, Q(9, 5)), Q(49167, 100))
    [] u = "inHg"        -> QMul(b, Q(10000, 338639))
    [] u = "bar"         -> QMul(b, Q(1, 1000))
    [] u = "atm"         -> QMul(b, Q(100, 101325))
BaseUnits == {"degrees", "knot", "meters", "celsius", "hPa"}
QuantityFails(x) ==
  LET base == x.v[CHOOSE u \in BaseUnits : u \in DOMAIN x.v] IN
  IF base.k \notin {"none", "num"} THEN {x.of \o "is no number"}
  ELSE {x.of \o u : u \in {u \in DOMAIN x.v : ~NumOK(View(u, QObs(base)), x.v[u])}}
(* The public conversions: factors and functions of a temperature.           *)
Factors == [FT_TO_M |-> Q(3048, 10000), SMI_TO_KM |-> Q(1852, 1000), KM_TO_SMI |-> Q(1000, 1852), KM_TO_M |-> QI(1000), M_TO_KM |-> Q(1, 1000), M_TO_SMI |-> Q(1, 1852),
            M_TO_FT |-> Q(10000, 3048), M_TO_DM |-> QI(10), M_TO_CM |-> QI(100), M_TO_IN |-> Q(10000, 254), DEGREES_TO_RADIANS |-> Q(17453293, 1000000000), DEGREES_TO_GRADIANS |-> Q(10, 9),
            KNOT_TO_MPS |-> Q(1852, 3600), KNOT_TO_MIPH |-> Q(115078, 100000), KNOT_TO_KPH |-> Q(1852, 1000), MPS_TO_KNOT |-> Q(3600, 1852), HPA_TO_INHG |-> Q(10000, 338639),
            INHG_TO_HPA |-> Q(338639, 10000), HPA_TO_BAR |-> Q(1, 1000), BAR_TO_HPA |-> QI(1000), MBAR_TO_HPA |-> QI(1), HPA_TO_MBAR |-> QI(1), HPA_TO_ATM |-> Q(100, 101325)]
Converted(f, t) ==
  CASE f = "celsius_to_kelvin"     -> QAdd(t, Q(27315, 100))
    [] f = "kelvin_to_celsius"     -> QAdd(t, Q(-27315, 100))
    [] f = "celsius_to_fahrenheit" -> QAdd(QMul(t, Q(9, 5)), QI(32))
    [] f = "fahrenheit_to_celsius" -> QMul(QAdd(t, QI(-32)), Q(5, 9))
    [] f = "celsius_to_rankine"    -> QAdd(QMul(t, Q(9, 5)), Q(49167, 100))
    [] f = "rankine_to_celsius"    -> QMul(QAdd(t, Q(-49167, 100)), Q(5, 9))
ConversionFails(o) ==
  IF o.out # "ok" THEN {o.out}
  ELSE LET t == Q(o.hundredths, 100) IN
       {f \in DOMAIN o.fn : ~NumOK(Converted(f, t), o.fn[f].there)}
       \cup {f \o " and back" : f \in {f \in DOMAIN o.fn : ~NumOK(t, o.fn[f].back)}}
       \cup {c \in DOMAIN o.factors : ~NumOK(Factors[c], o.factors[c])}
(* A quantity built from a text: its value is the number the text reads (a   *)
(* direction of two digits in tens, a temperature of three in tenths, 9999   *)
(* metres 10 km), its views are as above, and a direction lies in the sector *)
(* of its cardinal point, of sixteen.                                        *)
Magnitude(cls, c) ==
  LET neg == Starts(c, "-")  d == IF neg THEN DropFirst(c, 1) ELSE c
      v == Val(d)
  IN  IF ~IsDigits(d) THEN None
      ELSE CASE cls = "Direction" /\ Len(d) = 2 -> QI(10 * v)
             [] cls = "Distance" /\ c = "9999"  -> QI(10000)
             [] cls = "Temperature" -> Q(IF neg THEN -v ELSE v, IF Len(d) = 3 THEN 10 ELSE 1)
             [] OTHER -> QI(v)
BuiltFails(o) ==
  IF o.out # "ok" THEN {o.out}
  ELSE IF o.cardinal_of THEN Must(o.cardinal = o.code, "cardinal point of " \o o.code)
  ELSE LET q == Magnitude(o.cls, o.code) IN
       {o.cls \o " " \o u : u \in {u \in DOMAIN o.v : ~NumOK(View(u, q), o.v[u])}}
       \cup Must(o.cls = "Direction" => o.cardinal = Direction(IF Len(o.code) = 2 THEN o.code \o "0" ELSE o.code).c, "cardinal point of " \o o.code)
UnitFails(o) == IF o.kind = "CONVERSION" THEN ConversionFails(o) ELSE IF o.kind = "QUANTITY" THEN BuiltFails(o) ELSE IF o.out # "ok" THEN Must(o.out = "RangeError", o.out)
                ELSE UNION {QuantityFails(o.quantities[i]) : i \in 1..Len(o.quantities)}

---------------------------------------------------------------------------
(* C26.  The same groups in four parts; a report with one part changed.      *)
CodeSeq(p) == [i \in 1..Len(p.els) |-> <<p.els[i].n, p.els[i].code>>]
TwoSlots == {<<"wind", "tafwind">>, <<"vis", "tafvis">>, <<"weather", "weather">>, <<"cloud", "cloud">>}
InBoth(g) == \E s \in TwoSlots : Matches(s[1], g) /\ Matches(s[2], g)
SameFails(o) ==
  IF o.out # "ok" \/ o.out2 # "ok" THEN {o.out \o ", " \o o.out2}
  ELSE LET q == o.parts
           els == UNION {{q[i].els[j] : j \in 1..Len(q[i].els)} : i \in 1..4}
           alike(i, j) == Must(CodeSeq(q[i]) = CodeSeq(q[j]), "decoded groups of parts " \o ToString(i) \o " and " \o ToString(j))
                          \cup Must(CodeSeq(q[i]) # CodeSeq(q[j]) \/ q[i].derived = q[j].derived, "derived values of parts " \o ToString(i) \o " and " \o ToString(j))
       IN  {"meaning of " \o a.n \o " " \o a.code : a \in {a \in els : \E b \in els : a.n = b.n /\ a.code = b.code /\ a.d # b.d}}
           \cup alike(1, 2)
           \cup (IF \A i \in 1..Len(o.groups) : InBoth(o.groups[i]) THEN alike(1, 3) \cup alike(3, 4) ELSE {})
IsolateFails(o) ==
  IF o.out # "ok" \/ o.out2 # "ok" THEN Must(o.out \in Outcomes /\ o.out2 \in Outcomes, o.out \o ", " \o o.out2)
  ELSE UNION {LET i == o.same[k][1]  j == o.same[k][2] IN
              IF i > Len(o.a) \/ j > Len(o.b) THEN {"a part is missing"}
              ELSE {"part " \o ToString(i) \o ": " \o n : n \in {n \in DOMAIN o.a[i] : o.a[i][n] # o.b[j][n]}} : k \in 1..Len(o.same)}
PairFails(o) == IF "groups" \in DOMAIN o THEN SameFails(o) ELSE IsolateFails(o)

---------------------------------------------------------------------------
(* C27.  entry: the entries of the database with the code of the station.    *)
Fields8 == {"name", "icao", "iata", "synop", "lat", "lon", "elev"}
StationFails(o) ==
  IF o.out # "ok" THEN {o.out}
  ELSE LET s == o.st IN
       IF "by" \notin DOMAIN o /\ ~Matches("station", o.station) THEN Must(s.code # o.station, "code")
       ELSE Must(s.code = o.station, "code")
            \cup (IF o.entry = <<>> THEN {n : n \in {n \in Fields8 \cup {"country"} : s[n] # NA}}
                  ELSE Must(\E i \in 1..Len(o.entry) : /\ \A n \in Fields8 : s[n] = o.entry[i][n]
                                                       /\ s.country = o.entry[i].countryname, "not the entry of " \o o.station))

---------------------------------------------------------------------------
Fails(o) ==
  CASE PROP = "C05" -> TruncateFails(o)
    [] PROP = "C07" -> LayoutFails(o)
    [] PROP = "C24" -> DictFails(o)
    [] PROP = "C25" -> UnitFails(o)
    [] PROP = "C26" -> PairFails(o)
    [] PROP = "C27" -> StationFails(o)
    [] PROP = "C30" -> HelperFails(o)

RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN "" ELSE LET x == CHOOSE y \in S : TRUE IN x \o ";" \o Listed(S \ {x})

Init == cur \in 1..Len(Log) /\ verdict = "none"
Next == /\ verdict = "none"
        /\ verdict' = Listed(Fails(Log[cur]))
        /\ PrintT("V|" \o ToString(Log[cur].id) \o "|" \o verdict')
        /\ UNCHANGED cur
Spec == Init /\ [][Next]_<<cur, verdict>>
=============================================================================
