SPECIFICATION Spec
CONSTANTS
  NNames = 3
  InitPlace <- MCPlace
  Datas <- MCDatas
  Times = {1, 2}
INVARIANTS TypeOK OneKind LinesOk
PROPERTIES Stored Others
CHECK_DEADLOCK FALSE
