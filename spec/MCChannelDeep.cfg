SPECIFICATION Spec
CONSTANTS
  Caps = {1, 2, 3}
  MaxOps = 5
  MaxTx = 2
  Menu = {"try", "send", "sendr", "get", "recv", "recvr", "clone", "dtx", "drx", "isc"}
  Buffer = FALSE
INVARIANTS Ring Fifo Contents Capacity NeverBlocks NeverStuck HeldUp ClosedTx Drained LenOK
PROPERTIES RxClosedForGood TxClosedForGood NoSendAfterTxc
CHECK_DEADLOCK FALSE
