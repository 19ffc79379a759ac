SPECIFICATION LiveSpec
CONSTANTS
  Caps = {1, 2}
  MaxOps = 3
  MaxTx = 2
  Menu = {"try", "send", "sendr", "get", "recv", "recvr", "clone", "dtx", "drx", "isc"}
  Buffer = FALSE
PROPERTIES Live RxClosedForGood TxClosedForGood NoSendAfterTxc
CHECK_DEADLOCK FALSE
