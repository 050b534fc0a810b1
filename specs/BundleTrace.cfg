SPECIFICATION TraceSpec
CONSTANTS
  Task = {0, 1, 2, 3}
  Code = {1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}
INVARIANTS JoinedAfterAll OKIffAllOK ErrorFromTask DeadlineIffExpired Report
PROPERTIES FirstErrorWins RunsOnce
CHECK_DEADLOCK FALSE
