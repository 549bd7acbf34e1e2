----------------------------- MODULE WickGenM -----------------------------
EXTENDS WickGen
SpAll == <<"c", "a", "v", "h", "p", "g">>
SpMR  == <<"c", "a", "v", "h", "p", "g", "a", "g">>
SpAct == <<"a", "g", "h", "p">>
SpSR  == <<"c", "v">>
RkSmall == {<<1,1>>, <<2,2>>, <<1,2>>, <<2,1>>, <<0,1>>, <<1,0>>, <<2,0>>, <<0,2>>, <<3,3>>}
RkTwo == {<<1,1>>, <<2,2>>, <<2,2>>}
RkDiag == {<<1,1>>, <<2,2>>}
RkOne == {<<1,1>>}
===========================================================================
