----------------------------- MODULE MC_Threads -----------------------------
EXTENDS Threads
OneStart == {<<-2, 4>>}
TwoStarts == {<<1, 2>>, <<-2, 4>>}
=============================================================================
