SPECIFICATION Spec
CONSTANTS
  StartYears = {1800,1825,1850,1875,1900,1925,1950,1975,2000,2025,2050,2075,2100,2125,2150,2175}
  NDays = 9132
INVARIANTS RealDate CountsDays ClosedForms ClosedDoy ImplAgrees WeekAgrees SkipIsTicks
PROPERTIES TaiStep TaiMonthly
