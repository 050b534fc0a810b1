SPECIFICATION Spec
CONSTANTS
  Task = {t1, t2, t3}
  Code = {5, 7}
  Limits = {0, 2}
  MaxNow = 3
INVARIANTS TypeOK JoinedAfterAll OKIffAllOK ErrorFromTask DeadlineIffExpired
PROPERTIES FirstErrorWins RunsOnce Progress
CHECK_DEADLOCK FALSE
