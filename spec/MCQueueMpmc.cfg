SPECIFICATION Spec
CONSTANTS
  Caps = {2}
  Senders = {1, 2}
  Receivers = {3, 4}
  SendProgs <- RingSend1
  RecvProgs <- RingRecv0
  Pre = {1}
  defaultInitValue = 0
INVARIANTS Conforms SleepsRightly ListOK RingSane DropsRight
CHECK_DEADLOCK FALSE
