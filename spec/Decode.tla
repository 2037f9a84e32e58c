------------------------------- MODULE Decode -------------------------------
(* What a group of each kind means.  An element is [s |-> texts by name,     *)
(* q |-> quantities by name]; Absent(kind) is the element of a group that    *)
(* was not reported.  "<None>" stands for no value.                          *)
EXTENDS Grammar, Num

NA == "<None>"
Tru == "<True>"
Fal == "<False>"
Bool(b) == IF b THEN Tru ELSE Fal
El(s, q) == [s |-> s, q |-> q]
NoQ == [none |-> None]

Lookup(tab, c) == IF c \in DOMAIN tab THEN tab[c] ELSE NA

CompassSeq == <<"N", "NNE", "NE", "ENE", "E", "ESE", "SE", "SSE", "S", "SSW", "SW", "WSW", "W", "WNW", "NW", "NNW">>
\* the point of the compass whose 22.5 degrees wide sector holds the direction
Cardinal(deg) == CompassSeq[(((deg * 100 + 1125) \div 2250) % 16) + 1]
DegreesOf == ("N" :> 360) @@ ("NE" :> 45) @@ ("E" :> 90) @@ ("SE" :> 135) @@ ("S" :> 180) @@ ("SW" :> 225) @@ ("W" :> 270) @@ ("NW" :> 315)

TypeText == ("METAR" :> "Meteorological Aerodrome Report") @@ ("SPECI" :> "Special Aerodrome Report")
            @@ ("TAF" :> "Terminal Aerodrome Forecast")
ModifierText == ("COR" :> "Correction") @@ ("CORR" :> "Correction") @@ ("AMD" :> "Amendment") @@ ("NIL" :> "Missing report")
                @@ ("AUTO" :> "Automatic report") @@ ("TEST" :> "Testing report") @@ ("FINO" :> "Missing report")
IntensityText == ("-" :> "light") @@ ("+" :> "heavy") @@ ("-VC" :> "nearby light") @@ ("+VC" :> "nearby heavy") @@ ("VC" :> "nearby")
DescriptorText == ("MI" :> "shallow") @@ ("PR" :> "partial") @@ ("BC" :> "patches of") @@ ("DR" :> "low drifting") @@ ("BL" :> "blowing")
                  @@ ("SH" :> "showers") @@ ("TS" :> "thunderstorm") @@ ("FZ" :> "freezing")
PrecText == ("DZ" :> "drizzle") @@ ("RA" :> "rain") @@ ("SN" :> "snow") @@ ("SG" :> "snow grains") @@ ("IC" :> "ice crystals")
            @@ ("PL" :> "ice pellets") @@ ("GR" :> "hail") @@ ("GS" :> "snow pellets") @@ ("UP" :> "unknown precipitation")
ObscText == ("BR" :> "mist") @@ ("FG" :> "fog") @@ ("FU" :> "smoke") @@ ("VA" :> "volcanic ash") @@ ("DU" :> "dust") @@ ("SA" :> "sand")
            @@ ("HZ" :> "haze") @@ ("PY" :> "spray")
OtherText == ("PO" :> "sand whirls") @@ ("SQ" :> "squalls") @@ ("FC" :> "funnel cloud") @@ ("SS" :> "sandstorm") @@ ("DS" :> "dust storm")
             @@ ("NSW" :> "nil significant weather")
CoverText == ("SKC" :> "clear") @@ ("CLR" :> "clear") @@ ("NSC" :> "clear") @@ ("NCD" :> "clear") @@ ("FEW" :> "a few") @@ ("SCT" :> "scattered")
             @@ ("BKN" :> "broken") @@ ("OVC" :> "overcast") @@ ("0VC" :> "overcast") @@ ("///" :> "undefined") @@ ("VV" :> "indefinite ceiling")
OktasText == ("FEW" :> "1-2") @@ ("SCT" :> "3-4") @@ ("BKN" :> "5-7") @@ ("OVC" :> "8") @@ ("0VC" :> "8")
             @@ ("NSC" :> "not specified") @@ ("NCD" :> "not specified")
             @@ ("SKC" :> "undefined") @@ ("CLR" :> "undefined") @@ ("///" :> "undefined") @@ ("VV" :> "undefined")
CloudTypeText == ("CB" :> "cumulonimbus") @@ ("TCU" :> "towering cumulus")
SideText == ("R" :> " right") @@ ("L" :> " left") @@ ("C" :> " center")
TendencyText == ("N" :> "no change") @@ ("U" :> "increasing") @@ ("D" :> "decreasing")
MarkText == ("M" :> "below of") @@ ("P" :> "above of") @@ ("" :> "")
SeaText == ("0" :> "calm (glassy)") @@ ("1" :> "calm (rippled)") @@ ("2" :> "smooth (wavelets)") @@ ("3" :> "slight") @@ ("4" :> "moderate")
           @@ ("5" :> "rough") @@ ("6" :> "very rough") @@ ("7" :> "high") @@ ("8" :> "very high") @@ ("9" :> "phenomenal")
DepositText == ("0" :> "clear and dry") @@ ("1" :> "damp") @@ ("2" :> "wet and water patches")
               @@ ("3" :> "rime and frost covered (depth normally less than 1 mm)") @@ ("4" :> "dry snow") @@ ("5" :> "wet snow")
               @@ ("6" :> "slush") @@ ("7" :> "ice") @@ ("8" :> "compacted or rolled snow") @@ ("9" :> "frozen ruts or ridges")
               @@ ("/" :> "type of deposit not reported (e.g. due to runway clearance in progress)")
ExtentText == ("1" :> "less than 10% of runway") @@ ("2" :> "11%-25% of runway") @@ ("5" :> "26%-50% of runway") @@ ("9" :> "51%-100% of runway")
              @@ ("3" :> "reserved") @@ ("4" :> "reserved") @@ ("6" :> "reserved") @@ ("7" :> "reserved") @@ ("8" :> "reserved")
              @@ ("/" :> "not reported")
DepthText == ("00" :> "less than 1 mm") @@ ("91" :> "reserved") @@ ("92" :> "10 cm") @@ ("93" :> "15 cm") @@ ("94" :> "20 cm") @@ ("95" :> "25 cm")
             @@ ("96" :> "30 cm") @@ ("97" :> "35 cm") @@ ("98" :> "40 cm or more")
             @@ ("99" :> "runway(s) non-operational due to snow, slush, ice, large drifts or runway clearance, but depth not reported")
             @@ ("//" :> "depth of deposit operationally not significant or not measurable")
FrictionText == ("91" :> "breaking action poor") @@ ("92" :> "breaking action medium/poor") @@ ("93" :> "breaking action medium")
                @@ ("94" :> "breaking action medium/good") @@ ("95" :> "breaking action good") @@ ("96" :> "reserved") @@ ("97" :> "reserved")
                @@ ("98" :> "reserved") @@ ("99" :> "breaking action unreliable")
                @@ ("//" :> "breaking conditions not reported and/or runway not operational")
IndicatorText == ("NOSIG" :> "no significant changes") @@ ("BECMG" :> "becoming") @@ ("TEMPO" :> "temporary") @@ ("PROB30" :> "probability 30%")
                 @@ ("PROB40" :> "probability 40%") @@ ("PROB30 TEMPO" :> "probability 30% temporary") @@ ("PROB40 TEMPO" :> "probability 40% temporary")

---------------------------------------------------------------------------
Num2(c) == IF c # "" /\ IsDigits(c) THEN QI(Val(c)) ELSE None
\* a speed in knots
Speed(c, u) == IF c = "" \/ ~IsDigits(c) THEN None
               ELSE IF u = "MPS" THEN QMul(QI(Val(c)), Q(1000000, 514444)) ELSE QI(Val(c))
Direction(c) == IF c # "" /\ IsDigits(c) THEN [q |-> QI(Val(c)), c |-> Cardinal(Val(c))] ELSE [q |-> None, c |-> NA]
Celsius(sign, c) == IF c = "" \/ ~IsDigits(c) THEN None ELSE IF sign \in {"M", "-"} THEN QI(-Val(c)) ELSE QI(Val(c))
Runway(num, side) == IF num = "" THEN NA
                     ELSE IF side # "" THEN num \o SideText[side]
                     ELSE IF num = "88" THEN "all runways" ELSE IF num = "99" THEN "repeated" ELSE num
Metres4(c) == IF c = "" \/ c = "////" THEN None ELSE IF c = "9999" THEN QI(10000) ELSE QI(Val(c))

WindEl(f, c) ==
  LET d == Direction(G(f, "dir")) IN
  El([code |-> c, cardinal |-> d.c, variable |-> Bool(G(f, "dir") = "VRB")],
     [deg |-> d.q, spd |-> Speed(G(f, "speed"), G(f, "units")), gust |-> Speed(G(f, "gust"), G(f, "units"))])

\* n, n/d or n n/d sea miles of 1852 m
SeaMiles(i, fr) ==
  LET n == IF i = "" THEN 0 ELSE Val(i)
      a == IF fr = "" THEN 0 ELSE Val(Char(fr, 1))
      d == IF fr = "" THEN 1 ELSE Val(Char(fr, 3))
  IN  Q((n * d + a) * 1852, d)

VisEl(f, c) ==
  LET dir == G(f, "dir")
      m == IF G(f, "cavok") # "" THEN QI(10000)
           ELSE IF G(f, "vis") # "" THEN Metres4(G(f, "vis"))
           ELSE IF G(f, "int") = "" /\ G(f, "frac") = "" THEN None
           ELSE IF G(f, "units") = "SM" THEN SeaMiles(G(f, "int"), G(f, "frac"))
           ELSE IF G(f, "units") = "KM" /\ G(f, "frac") = "" THEN QI(1000 * Val(G(f, "int")))
           ELSE None
  IN  El([code |-> c, cardinal |-> IF dir = "" THEN NA ELSE dir, cavok |-> Bool(G(f, "cavok") # "")],
         [m |-> m, deg |-> IF dir = "" THEN None ELSE QI(DegreesOf[dir])])

MinVisEl(f, c) ==
  LET dir == G(f, "dir") IN
  El([code |-> c, cardinal |-> IF dir = "" THEN NA ELSE dir],
     [m |-> Metres4(G(f, "vis")), deg |-> IF dir = "" THEN None ELSE QI(DegreesOf[dir])])

RvrRange(c, u) == IF c = "" THEN None
               ELSE IF u = "FT" THEN Q(Val(c) * 3048, 10000)
               ELSE IF c = "9999" THEN QI(10000) ELSE QI(Val(c))

CloudEl(f, c) ==
  LET h == G(f, "height")
      known == h # "" /\ h # "///" IN
  El([code |-> c, cover |-> CoverText[G(f, "cover")], oktas |-> OktasText[G(f, "cover")], type |-> Lookup(CloudTypeText, G(f, "type"))],
     [ft |-> IF known THEN QI(100 * Val(h)) ELSE None, m |-> IF known THEN Q(Val(h) * 3048, 100) ELSE None])

WeatherEl(f, c) ==
  El([code |-> c, int |-> Lookup(IntensityText, G(f, "int")), desc |-> Lookup(DescriptorText, G(f, "desc")), prec |-> Lookup(PrecText, G(f, "prec")),
      obsc |-> Lookup(ObscText, G(f, "obsc")), other |-> Lookup(OtherText, G(f, "other"))], NoQ)

PressEl(f, c) ==
  LET p == G(f, "press")
      v == IF p = "" \/ p = "////" THEN None
           ELSE IF G(f, "units") = "A" \/ G(f, "units2") = "INS" THEN QMul(QI(Val(p)), Q(338639, 1000000))
           ELSE IF G(f, "units") \in {"Q", "QNH"} THEN QI(Val(p))
           ELSE IF Val(p) > 2500 THEN QMul(QI(Val(p)), Q(338639, 1000000))
           ELSE QI(Val(p))
  IN  El([code |-> c], [hpa |-> v])

ClearedText(name) == "contaminations have ceased to exists on "
                     \o (IF name = "repeated" THEN "previous runway" ELSE IF name = "all runways" THEN name
                         ELSE IF name = NA THEN "runway None" ELSE "runway " \o name)
Depth(c) == IF c = "" THEN NA ELSE IF IsDigits(c) /\ Val(c) \in 1..90 THEN ToString(Val(c)) \o " mm" ELSE DepthText[c]
Friction(c) == IF c = "" THEN NA ELSE IF IsDigits(c) /\ Val(c) \in 0..90 THEN "0." \o c ELSE FrictionText[c]

\* the element of a group c of kind k with fields f (the empty f and c = NA: not reported)
Element(k, f, c) ==
  CASE k = "type"     -> El([code |-> c, type |-> Lookup(TypeText, c)], NoQ)
    [] k = "station"  -> El([code |-> c], NoQ)
    [] k = "time"     -> El([code |-> c], NoQ)
    [] k \in {"modifier", "amdcor"} -> El([code |-> c, desc |-> Lookup(ModifierText, c)], NoQ)
    [] k \in {"wind", "tafwind"} -> WindEl(f, c)
    [] k = "windvar"  -> El([code |-> c, fromcard |-> Direction(G(f, "from")).c, tocard |-> Direction(G(f, "to")).c],
                            [from |-> Direction(G(f, "from")).q, to |-> Direction(G(f, "to")).q])
    [] k \in {"vis", "tafvis"} -> VisEl(f, c)
    [] k = "minvis"   -> MinVisEl(f, c)
    [] k = "rvr"      -> El([code |-> c, name |-> Runway(G(f, "num"), G(f, "side")), trend |-> Lookup(TendencyText, G(f, "trend")),
                             lowmark |-> MarkText[G(f, "mlow")], highmark |-> MarkText[G(f, "mhigh")]],
                            [low |-> RvrRange(G(f, "low"), G(f, "units")), high |-> RvrRange(G(f, "high"), G(f, "units"))])
    [] k = "weather"  -> WeatherEl(f, c)
    [] k = "cloud"    -> CloudEl(f, c)
    [] k = "temps"    -> El([code |-> c], [t |-> Celsius(G(f, "tsign"), G(f, "temp")), d |-> Celsius(G(f, "dsign"), G(f, "dew"))])
    [] k = "press"    -> PressEl(f, c)
    [] k = "recent"   -> El([code |-> c, desc |-> Lookup(DescriptorText, G(f, "desc")), prec |-> Lookup(PrecText, G(f, "prec")),
                             obsc |-> Lookup(ObscText, G(f, "obsc")), other |-> Lookup(OtherText, G(f, "other"))], NoQ)
    [] k = "shear"    -> El([code |-> c, all |-> Bool(G(f, "all") # ""),
                             name |-> IF G(f, "num") = "" THEN NA ELSE IF G(f, "side") = "" THEN G(f, "num") ELSE Runway(G(f, "num"), G(f, "side"))], NoQ)
    [] k = "sea"      -> El([code |-> c, state |-> Lookup(SeaText, G(f, "state"))],
                            [t |-> Celsius(G(f, "sign"), G(f, "temp")), h |-> IF G(f, "height") = "" THEN None ELSE Q(Val(G(f, "height")), 10)])
    [] k = "rwystate" -> El([code |-> c, name |-> Runway(G(f, "num"), G(f, "side")), deposits |-> Lookup(DepositText, G(f, "deposit")),
                             contamination |-> Lookup(ExtentText, G(f, "cont")), depth |-> Depth(G(f, "depth")), friction |-> Friction(G(f, "fric")),
                             snoclo |-> Bool(G(f, "word") = "SNOCLO"), clrd |-> IF G(f, "word") = "CLRD//" THEN ClearedText(Runway(G(f, "num"), G(f, "side"))) ELSE NA], NoQ)
    [] k = "nil"      -> El([code |-> c, desc |-> IF c = NA THEN NA ELSE "Missing report", missing |-> Bool(c # NA)], NoQ)
    [] k = "cnl"      -> El([code |-> c, cancelled |-> Bool(c # NA)], NoQ)
    [] OTHER          -> El([code |-> c], NoQ)

NoFields == [x \in {""} |-> ""]
Absent(k) == Element(k, NoFields, NA)
ElementOf(k, c) == Element(k, Fields(k, c), c)

---------------------------------------------------------------------------
(* Comparison of an element with an observed one ([s |-> .., q |-> ..]);     *)
(* the names of what differs.                                                *)
SFails(e, o) == {n \in DOMAIN e.s : n \notin DOMAIN o.s \/ e.s[n] # o.s[n]}
QFails(e, o) == IF e.q = NoQ THEN {} ELSE {n \in DOMAIN e.q : n \notin DOMAIN o.q \/ ~NumOK(e.q[n], o.q[n])}
ElFails(e, o) == SFails(e, o) \cup QFails(e, o)
=============================================================================
