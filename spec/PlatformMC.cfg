SPECIFICATION Spec
CONSTANTS
  KeepMs = 60000
  SlackMs = 0
  Phones = {1, 2}
  PlateSet = {11, 12}
  Conns = {"a", "b"}
  TickMs = 30000
  WithFrag = FALSE
  WithCmd = TRUE
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK Unique GeoOfRegistered GeoLatest Route Bounds
PROPERTIES OneTerminal Answered RegExact OnlineOnlyByCode WrongCodeRevokes StatusMoves RemovedBy CreatedBy CutOffIff ClosedBy ExpiryCloses FragWhole FragDone CmdTo
