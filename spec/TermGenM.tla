----------------------------- MODULE TermGenM -----------------------------
EXTENDS TermGen
KAll == << <<"H", 1, 0>>, <<"H", 2, 0>>, <<"T", 1, 1>>, <<"T", 2, 1>>, <<"T", 1, 2>>, <<"T", 2, 2>>,
           <<"L", 1, 0>>, <<"L", 2, 0>>, <<"K", 1, 0>> >>
\* the kind of products that appear in practice
KCC  == << <<"H", 1, 0>>, <<"H", 2, 0>>, <<"T", 1, 1>>, <<"T", 2, 1>>, <<"T", 1, 1>>, <<"T", 2, 1>> >>
KMR  == << <<"H", 2, 0>>, <<"T", 2, 1>>, <<"L", 1, 0>>, <<"L", 1, 0>>, <<"L", 2, 0>>, <<"T", 1, 1>>, <<"H", 1, 0>> >>
KHT  == << <<"H", 1, 0>>, <<"H", 2, 0>>, <<"T", 1, 1>>, <<"T", 2, 1>>, <<"T", 1, 2>>, <<"T", 2, 2>>, <<"T", 3, 1>> >>
KDel == << <<"H", 1, 0>>, <<"T", 1, 1>>, <<"H", 2, 0>>, <<"K", 1, 0>>, <<"L", 1, 0>>, <<"K", 1, 0>> >>
KOne == << <<"H", 1, 0>>, <<"T", 1, 1>>, <<"T", 1, 2>>, <<"L", 1, 0>>, <<"K", 1, 0>> >>
KL3  == << <<"H", 2, 0>>, <<"T", 2, 1>>, <<"L", 3, 0>>, <<"T", 1, 1>>, <<"L", 2, 0>>, <<"L", 1, 0>>, <<"T", 3, 1>> >>
KOne1 == << <<"H", 1, 0>>, <<"T", 1, 1>>, <<"T", 1, 2>> >>
KTwo == << <<"H", 2, 0>>, <<"T", 2, 1>>, <<"T", 2, 2>>, <<"H", 1, 0>>, <<"T", 1, 1>> >>
KTwoH == << <<"H", 2, 0>> >>
KProd == << <<"H", 1, 0>>, <<"H", 2, 0>>, <<"T", 1, 1>>, <<"T", 1, 2>>, <<"T", 2, 1>>, <<"L", 1, 0>> >>
KThree == << <<"H", 3, 0>>, <<"T", 3, 1>>, <<"T", 3, 2>>, <<"L", 3, 0>>, <<"T", 2, 1>> >>
\* amplitudes and Hamiltonians of two names (V, S) and hole densities
KNm == << <<"H", 1, 0>>, <<"V", 2, 0>>, <<"T", 1, 1>>, <<"S", 1, 1>>, <<"S", 2, 2>>, <<"T", 2, 1>>, <<"V", 1, 0>>, <<"C", 1, 0>>, <<"L", 1, 0>>, <<"H", 2, 0>> >>
KNm0 == << <<"V", 2, 0>>, <<"T", 1, 1>>, <<"S", 1, 2>>, <<"S", 2, 1>>, <<"T", 2, 1>>, <<"V", 1, 0>>, <<"H", 2, 0>> >>
LAll == {"g", "p", "h", "v", "c", "a"}
LSR  == {"c", "v"}
LMR  == {"c", "a", "v"}
LPH  == {"p", "h"}
LGen == {"g", "h", "p", "a"}
ORAll == {<<0,0>>, <<1,1>>, <<2,2>>, <<1,2>>, <<2,1>>, <<3,3>>, <<0,2>>, <<1,3>>}
ORCons == {<<0,0>>, <<1,1>>, <<2,2>>, <<3,3>>}
ORUneq == {<<2,0>>, <<0,2>>, <<1,2>>, <<2,1>>, <<1,3>>, <<3,1>>}
OR11 == {<<1,1>>}
OR22 == {<<2,2>>}
OR33 == {<<3,3>>}
OR0 == {<<0,0>>}
OROpen == {<<1,1>>, <<2,2>>, <<3,3>>}
ORSmall == {<<0,0>>, <<1,1>>, <<2,2>>}
CfBig == {<<1,2304>>, <<-5,1152>>, <<7,5760>>, <<1,3>>, <<1000001,1>>, <<-1,518400>>, <<25,1>>}
Cf == {<<1,1>>, <<-1,4>>, <<3,8>>, <<-5,36>>}
===========================================================================
