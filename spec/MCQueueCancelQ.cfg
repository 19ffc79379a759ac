SPECIFICATION Spec
CONSTANTS
  Caps = {1}
  Senders = {1, 2}
  Receivers = {3}
  SendProgs <- CancelSend1
  RecvProgs <- CancelRecv1
  Pre = {1}
  defaultInitValue = 0
INVARIANTS Conforms SleepsRightly ListOK RingSane DropsRight
CHECK_DEADLOCK FALSE
