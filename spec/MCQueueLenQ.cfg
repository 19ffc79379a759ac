SPECIFICATION Spec
CONSTANTS
  Caps = {2}
  Senders = {1}
  Receivers = {3, 4}
  SendProgs <- LenSend1
  RecvProgs <- LenRecv1
  Pre = {0}
  defaultInitValue = 0
INVARIANTS Conforms SleepsRightly ListOK RingSane DropsRight
CHECK_DEADLOCK FALSE
