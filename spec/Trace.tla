-------------------------------- MODULE Trace -------------------------------
(* Trace validation: every record of the log is a text with what the         *)
(* implementation made of it.  The text is read by the machine of Report;    *)
(* when the machine has finished, Verdict prints the clauses of property     *)
(* PROP the record breaks.  Every record gets exactly one verdict.           *)
EXTENDS Wording, Json, IOUtils

VARIABLES cur, verdict
Log == ndJsonDeserialize(IOEnv.TRACE)
PROP == IOEnv.PROP

tvars == <<cur, verdict, rvars>>

Words0(n) == RawWords(Log[n].text)

Init == /\ cur \in 1..Len(Log)
        /\ verdict = "none"
        /\ kind = "" /\ phase = "idle" /\ part = "" /\ code = <<>> /\ groups = <<>> /\ used = 0 /\ items = <<>>
        /\ unparsed = <<>> /\ dates = 0 /\ todo = <<>> /\ finished = <<>>

Start == /\ phase = "idle"
         /\ LET o == Log[cur]
                ws == Words0(cur)
                ps == PartsOf(o.kind, ws)
                p == IF o.kind = "METAR" THEN "metar" ELSE "taf"
            IN  /\ kind' = o.kind /\ phase' = "read" /\ part' = p
                /\ code' = ps[1] /\ groups' = GroupsOf(p, ps[1]) /\ used' = 0 /\ items' = <<>> /\ unparsed' = <<>>
                /\ dates' = InitialDates(Months(o.y, o.mo)) /\ todo' = Tail(ps) /\ finished' = <<>>
         /\ UNCHANGED <<cur, verdict>>

---------------------------------------------------------------------------
\* the outcome the machine prescribes
OutcomeFails(o) ==
  IF kind = "METAR" /\ o.out \in {"ok", "RangeError"} /\ TrendUnclear(MetarSections(Words0(cur)).trend) THEN {}
  ELSE If(o.out = (IF phase = "end" THEN "ok" ELSE "RangeError"), "outcome: " \o o.out)

AllElements == BodyNames \ {"station", "time", "valid", "tmax", "tmin"}

FMsApart == \A a, b \in 2..Len(finished) :
              a < b /\ IsFM(finished[a].dates.ind) /\ Ends1(finished[b].dates.ind)
                => finished[b].dates.from >= finished[a].dates.from + 60 /\ (IsFM(finished[b].dates.ind) \/ finished[b].dates.per # "")
HasValid == ItemsOf(finished[1], "valid") # <<>>

\* the clauses of each property, for a record whose outcome is as prescribed
Clauses(o) ==
  CASE PROP = "C01" -> AccountFails(o)
    [] PROP = "C02" -> CodesFails(o)
    [] PROP = "C03" -> CodesFails(o)
    [] PROP = "C04" -> {}
    [] PROP = "C06" -> SectionFails(o, Words0(cur)) \cup PeriodCodeFails(o)
    [] PROP = "C08" -> TimeFails(o) \cup If("again" \notin DOMAIN o \/ o.again = "", "with another clock")
    [] PROP = "C09" -> PartsFails(o, LAMBDA x, ob, j : IF j = 1 \/ ~InTwoHours(x) THEN {} ELSE IndCodeFails(x, ob) \cup IndTextFails(x, ob) \cup PeriodFails(x, ob))
    [] PROP = "C10" -> ValidFails(o)
    [] PROP = "C11" -> IF ~HasValid THEN {} ELSE
                       PartsFails(o, LAMBDA x, ob, j : IF j = 1 THEN {} ELSE IndCodeFails(x, ob) \cup IndTextFails(x, ob) \cup PeriodFails(x, ob))
    [] PROP = "C12" -> IF ~HasValid \/ ~FMsApart THEN {} ELSE
                       PartsFails(o, LAMBDA x, ob, j : IF j = 1 THEN {} ELSE IndCodeFails(x, ob) \cup IndTextFails(x, ob) \cup PeriodFails(x, ob)
                                                       \cup UNION {CodeFails(x, ob, n) : n \in PeriodNames})
                       \cup PeriodCodeFails(o)
    [] PROP = "C13" -> TafTempFails(o, "tmax") \cup TafTempFails(o, "tmin")
    [] PROP = "C14" -> ValueFails(o, {"wind", "windvar"}, {"wind"})
    [] PROP = "C15" -> ValueFails(o, {"vis", "minvis"}, {"vis"})
    [] PROP = "C16" -> ValueFails(o, {"cloud"}, {"cloud"}) \cup CeilingFails(o)
    [] PROP = "C17" -> ValueFails(o, {"weather", "recent"}, {"weather"})
    [] PROP = "C18" -> ValueFails(o, {"temps", "press", "sea"}, {})
    [] PROP = "C19" -> ValueFails(o, {"rvr", "shear", "rwystate"}, {}) \cup (IF kind = "METAR" THEN ShearFails(o) ELSE {})
    [] PROP = "C20" -> RulesFails(o)
    [] PROP = "C21" -> CavokFails(o)
    [] PROP = "C28" -> ValueFails(o, {"type", "modifier", "nil", "cnl"}, {})
    [] PROP = "C29" -> WordFails(o)
    [] OTHER -> {"unknown property"}

FailsNow == LET o == Log[cur]  f == OutcomeFails(o) IN
            IF f # {} THEN f
            ELSE IF o.out = "ok" /\ ~Clear(Words0(cur)) /\ PROP \in {"C01", "C06"} THEN WholeTrendFails(o, Words0(cur))
            ELSE IF o.out # "ok" \/ (phase = "RangeError") \/ ~Clear(Words0(cur)) THEN {}
            ELSE Clauses(o)

RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN "" ELSE LET x == CHOOSE y \in S : TRUE IN x \o ";" \o Listed(S \ {x})

Verdict == /\ phase \in {"end", "RangeError"} /\ verdict = "none"
           /\ verdict' = Listed(FailsNow)
           /\ PrintT("V|" \o ToString(Log[cur].id) \o "|" \o verdict')
           /\ UNCHANGED <<cur, rvars>>

Next == Start \/ (ReportNext /\ UNCHANGED <<cur, verdict>>) \/ Verdict
Spec == Init /\ [][Next]_tvars
=============================================================================
