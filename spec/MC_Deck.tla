-------------------------------- MODULE MC_Deck --------------------------------
EXTENDS Deck, Json
Emit == tapes = (20 :> ENDF) /\ (deck = <<>> \/ Len(deck) = Len(Reference(opt))) => PrintT("CASE " \o ToJson(opt))
================================================================================
