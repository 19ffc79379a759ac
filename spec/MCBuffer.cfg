SPECIFICATION Spec
CONSTANTS
  Caps = {1, 2}
  MaxOps = 4
  MaxTx = 2
  Menu = {"try", "tryr", "pushw", "get", "getr", "popw", "len"}
  Buffer = TRUE
INVARIANTS Ring Fifo Contents Capacity NeverBlocks NeverStuck HeldUp LenOK

CHECK_DEADLOCK FALSE
