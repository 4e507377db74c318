---- MODULE IndexStatusMC ----
EXTENDS IndexStatus
ProgressVal == {<<-1, -1>>, <<0, 2>>, <<1, 2>>, <<1, 3>>, <<3, 2>>}
====
