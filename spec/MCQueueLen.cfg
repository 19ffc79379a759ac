SPECIFICATION Spec
CONSTANTS
  Caps = {1, 2}
  Senders = {1, 2}
  Receivers = {3}
  SendProgs <- LenSend
  RecvProgs <- LenRecv
  Pre = {0, 1, 2}
  defaultInitValue = 0
INVARIANTS Conforms SleepsRightly ListOK RingSane DropsRight
CHECK_DEADLOCK FALSE
