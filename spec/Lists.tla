-------------------------------- MODULE Lists -------------------------------
(* A list of groups as its user sees it: a bounded sequence with any number  *)
(* of independent iterators; 0 is the list as its own iterator, which begins *)
(* anew once it has ended.  An operation is a record with field o; its       *)
(* answer is a sequence of texts.                                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES items,   \* the codes in the list, in order
          pos      \* iterator -> items it has yielded, Off when there is none
lvars == <<items, pos>>
Off == -1

Live == {j \in DOMAIN pos \ {0} : pos[j] # Off}

\* whether an operation makes sense: only existing iterators advance, and no
\* item is added under an iterator
Possible(op) == CASE op.o \in {"next", "drop"} -> pos[op.i] # Off
                  [] op.o = "add" -> Live = {}
                  [] OTHER -> TRUE

Answer(op, lim) ==
  CASE op.o \in {"next", "own"} -> IF pos[op.i] < Len(items) THEN <<items[pos[op.i] + 1]>> ELSE <<"Stop">>
    [] op.o \in {"all", "codes", "items"} -> items
    [] op.o = "len" -> <<ToString(Len(items))>>
    [] op.o = "idx" /\ op.i < 0 -> IF op.i < -Len(items) THEN <<"IndexError">> ELSE <<items[Len(items) + op.i + 1]>>
    [] op.o = "idx" -> IF op.i >= lim THEN <<"RangeError">> ELSE IF op.i >= Len(items) THEN <<"IndexError">> ELSE <<items[op.i + 1]>>
    [] op.o = "add" -> IF Len(items) >= lim THEN <<"RangeError">> ELSE <<"ok">>
    [] OTHER -> <<"ok">>

Do(op, lim) ==
  /\ Possible(op)
  /\ items' = IF op.o = "add" /\ Len(items) < lim THEN Append(items, op.c) ELSE items
  /\ pos' = CASE op.o = "iter" -> [pos EXCEPT ![op.i] = 0]
              [] op.o = "drop" -> [pos EXCEPT ![op.i] = Off]
              [] op.o = "next" -> [pos EXCEPT ![op.i] = IF @ < Len(items) THEN @ + 1 ELSE @]
              [] op.o = "own"  -> [pos EXCEPT ![op.i] = IF @ < Len(items) THEN @ + 1 ELSE 0]
              [] OTHER -> pos

\* the kinds of lists: a report with the first groups of `groups` has them in the list at `path`
L(name, kind, path, lim, lead, groups) == [name |-> name, kind |-> kind, path |-> path, lim |-> lim, lead |-> lead, groups |-> groups]
MLead == "METAR SKBO 071830Z"
TLead == "TAF SKBO 071700Z 0718/0818"
Ws == <<"RA", "+SN", "BR", "VCSH", "FG">>
Cs == <<"FEW010", "SCT020", "BKN030", "OVC040", "BKN050CB", "OVC060">>
ListTable == <<
  L("runway ranges", "METAR", "runway_ranges", 3, MLead, <<"R01/1000", "R02/2000", "R03/3000", "R04/0400", "R05/0500">>),
  L("weathers", "METAR", "weathers", 3, MLead, Ws),
  L("clouds", "METAR", "clouds", 4, MLead, Cs),
  L("windshears", "METAR", "windshears", 3, MLead, <<"WS R01", "WS R02", "WS R03", "WS R04", "WS ALL RWY">>),
  L("trends", "METAR", "weather_trends", 2, MLead, <<"TEMPO RA", "BECMG SN", "NOSIG", "TEMPO FG">>),
  L("trend weathers", "METAR", "weather_trends.0.weathers", 3, MLead \o " TEMPO", Ws),
  L("trend clouds", "METAR", "weather_trends.0.clouds", 4, MLead \o " BECMG", Cs),
  L("taf weathers", "TAF", "weathers", 3, TLead, Ws),
  L("taf clouds", "TAF", "clouds", 4, TLead, Cs),
  L("max temperatures", "TAF", "max_temperatures", 2, TLead, <<"TX20/0719Z", "TX21/0720Z", "TX22/0721Z", "TXM01/0722Z">>),
  L("min temperatures", "TAF", "min_temperatures", 2, TLead, <<"TN20/0719Z", "TN21/0720Z", "TN22/0721Z", "TNM01/0722Z">>),
  L("changes", "TAF", "changes_forecasted", 8, TLead,
    <<"TEMPO 0719/0720", "BECMG 0720/0721", "FM072130", "PROB30 0722/0723", "PROB40 TEMPO 0723/0724", "TEMPO 0800/0801", "BECMG 0802/0803", "FM080400", "TEMPO 0805/0806", "PROB30 0806/0807">>),
  L("change weathers", "TAF", "changes_forecasted.0.weathers", 3, TLead \o " TEMPO 0719/0721", Ws),
  L("change clouds", "TAF", "changes_forecasted.0.clouds", 4, TLead \o " FM072000", Cs)>>
=============================================================================
