SPECIFICATION Spec
CONSTANTS
  Caps = {2}
  Senders = {1}
  Receivers = {3, 4}
  SendProgs <- RingSend2
  RecvProgs <- RingRecv1
  Pre = {2}
  defaultInitValue = 0
INVARIANTS Conforms SleepsRightly ListOK RingSane DropsRight
CHECK_DEADLOCK FALSE
