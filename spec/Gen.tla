--------------------------------- MODULE Gen ---------------------------------
(* Writes the cases of every step of the plan.                               *)
EXTENDS Pairs, Scripts, Grids

CASES ==
  CASE FAMILY = "values"     -> ValueCases(KindsFor(PROP), 1)
    [] FAMILY = "departures" -> DepartCases
    [] FAMILY = "dense"      -> DenseCases
    [] FAMILY = "pump"       -> PumpCases
    [] FAMILY = "alldepart"  -> AllDepartCases
    [] FAMILY = "reports"    -> ReportCases
    [] FAMILY = "scan"       -> ScanCases
    [] FAMILY = "derived"    -> DerivedCases
    [] FAMILY = "grid"       -> GridCases
    [] FAMILY = "trendgrid"  -> TrendGrid
    [] FAMILY = "validgrid"  -> ValidGrid
    [] FAMILY = "changegrid" -> ChangeGrid
    [] FAMILY = "chaingrid"  -> ChainGrid
    [] FAMILY = "tempgrid"   -> TempGrid
    [] FAMILY = "timegrid"   -> TimeGrid
    [] FAMILY = "headers"    -> HeaderGrid
    [] FAMILY = "sections"   -> SectionCases
    [] FAMILY = "trendclock" -> TrendClockCases
    [] FAMILY = "valid"      -> ValidCases
    [] FAMILY = "change"     -> ChangeCases
    [] FAMILY = "chain"      -> ChainCases
    [] FAMILY = "temp"       -> TempCases
    [] FAMILY = "time"       -> TimeCases
    [] FAMILY = "wild"       -> WildCases
    [] FAMILY = "full"       -> FullCases
    [] FAMILY = "small"      -> SmallCases
    [] FAMILY = "layout"     -> LayoutCases
    [] FAMILY = "clock"      -> ClockCases
    [] FAMILY = "conversions" -> ConversionCases
    [] FAMILY = "long"       -> LongCases
    [] FAMILY = "same"       -> SameCases
    [] FAMILY = "isolate"    -> IsolateCases
    [] FAMILY = "lookups"    -> LookupCases
    [] FAMILY = "helpers"    -> HelperCases
    [] FAMILY = "quantities" -> QuantityCases
    [] FAMILY = "shadow"     -> ShadowCases
    [] FAMILY = "stations"   -> StationCases
    [] FAMILY = "lists"      -> ListCases
    [] FAMILY = "listwalk"   -> ListWalkCases
    [] FAMILY = "history"    -> HistoryCases
    [] FAMILY = "marathon"   -> MarathonCases
    [] FAMILY = "threads"    -> ThreadCases

\* a report has a text
Said(c) == IF "kind" \notin DOMAIN c \/ "text" \notin DOMAIN c THEN TRUE ELSE (c.text # "" /\ ("canon" \in DOMAIN c => c.canon # "")) \/ c.kind \notin {"METAR", "TAF"}
Init == at = 1
Next == at <= Len(Plan) /\ ndJsonSerialize(IOEnv.OUT \o ToString(at), SelectSeq(CASES, Said)) /\ at' = at + 1
=============================================================================
