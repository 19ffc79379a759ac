------------------------------ MODULE MCQueue ------------------------------
(* Programs for the design model Queue *)
EXTENDS Queue
\* ring only: any number of producers and consumers
RingSend == {<< "try", "try" >>, << "tryr", "relp" >>}
RingRecv == {<< "get", "get" >>, << "getr", "relc" >>}
\* waiting
WaitSend == {<< "send" >>, << "try" >>, << "sendr", "relp" >>}
WaitRecv == {<< "recv", "recv" >>, << "recvr", "relc" >>, << "get", "recv" >>, << "get", "get" >>}
\* closing
CloseSend == {<< "send", "dtx" >>, << "dtx" >>, << "try", "dtx" >>, << "send" >>}
CloseRecv == {<< "recv", "recv" >>, << "get", "drx" >>, << "recv", "drx" >>, << "drx" >>}
\* cancelling
CancelSend == {<< "sendc" >>, << "send" >>, << "sendc", "try" >>}
CancelRecv == {<< "get" >>, << "get", "get" >>, << "get", "drx" >>, << "recv" >>}
\* smaller sets, for every change
RingSend1 == {<< "try" >>, << "tryr", "relp" >>}
RingRecv0 == {<< "get" >>}
RingRecv1 == {<< "get" >>, << "getr", "relc" >>}
RingSend2 == {<< "try", "try" >>, << "tryr", "relp" >>}
RingRecv2 == {<< "get", "get" >>, << "getr", "relc" >>}
WaitSend1 == {<< "send" >>}
WaitRecv1 == {<< "recv", "recv" >>, << "get", "get" >>}
CloseSend1 == {<< "send", "dtx" >>, << "dtx" >>}
CloseRecv1 == {<< "recv", "recv" >>, << "drx" >>, << "get", "get" >>}
CancelSend1 == {<< "sendc" >>, << "send" >>}
CancelRecv1 == {<< "get" >>, << "drx" >>}
\* time limits (blocking channels)
TimedSend == {<< "sendt" >>, << "sendb" >>, << "sendt", "try" >>}
TimedRecv == {<< "recvt", "get" >>, << "recvt", "recvt" >>, << "get", "recvt" >>, << "recv" >>, << "recvt", "drx" >>}
TimedSend1 == {<< "sendt" >>, << "sendb" >>}
TimedRecv1 == {<< "get", "get" >>}
TimedSend2 == {<< "try" >>, << "dtx" >>}
TimedRecv2 == {<< "recvt", "recvt" >>, << "recvt", "get" >>}
\* tasks which move to another waker, and receivers which give up
MoveSend == {<< "sendm" >>, << "send" >>, << "try", "dtx" >>}
MoveRecv == {<< "recvm", "recvm" >>, << "recvc", "recvm" >>, << "get", "get" >>, << "recvc", "get" >>, << "get", "drx" >>}
MoveSend1 == {<< "sendm" >>, << "send" >>}
MoveRecv1 == {<< "get" >>, << "drx" >>}
MoveSend2 == {<< "try" >>, << "dtx" >>}
MoveRecv2 == {<< "recvm" >>, << "recvc", "recv" >>}
\* observers, and the count of senders
LenSend == {<< "try", "len" >>, << "tryr", "relp" >>, << "len", "try" >>}
LenRecv == {<< "get", "len" >>, << "len", "get" >>, << "getr", "relc" >>}
LenSend1 == {<< "try", "try" >>}
LenRecv1 == {<< "len" >>, << "get", "get" >>}
CountSend == {<< "clone", "dtx", "dtx" >>, << "dtx" >>, << "clone", "try", "dtx" >>}
CountSend1 == {<< "clone", "dtx", "dtx" >>, << "dtx" >>}
CountRecv1 == {<< "isc", "recv" >>, << "recv", "isc" >>}
CountRecv == {<< "isc", "get", "isc" >>, << "recv", "isc" >>, << "recv", "recv" >>}
=============================================================================
