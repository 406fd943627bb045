----------------------------- MODULE QuotingMC -----------------------------
EXTENDS Quoting
MCOptions == {[stop |-> a, split |-> b, esc |-> <<46>>, stopstr |-> c, dq |-> d, sq |-> e, rmq |-> f, unq |-> g] :
              a \in {<<>>, <<46>>}, b \in {<<>>, <<44>>}, c \in {<<>>, <<49, 44>>}, d \in BOOLEAN, e \in {TRUE}, f \in BOOLEAN, g \in BOOLEAN}
=============================================================================
