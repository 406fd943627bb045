----------------------------- MODULE HashConsts -----------------------------
(* Constants of the hash definitions as 16-bit limbs, least significant first. *)
MumboSecret == <<<<51464, 62396, 58983, 27145>>, <<42811, 33994, 44677, 47975>>, <<63531, 65172, 62322, 15470>>, <<14065, 24349, 62778, 42319>>, <<33489, 44518, 21119, 20750>>, <<27679, 11070, 26764, 39685>>, <<48491, 64321, 55723, 8067>>, <<8569, 4990, 52505, 23520>>, <<40664, 49413, 40285, 52155>>, <<54535, 13948, 10538, 25242>>, <<56599, 12400, 346, 37209>>, <<22841, 63246, 60632, 5423>>, <<2865, 65472, 9831, 26419>>, <<5393, 26712, 19079, 36532>>, <<36775, 25849, 11789, 56076>>, <<20388, 48890, 18461, 18357>>>>
TemboSecret == <<<<51465, 62396, 58983, 27145>>, <<42811, 33994, 44677, 47975>>, <<63531, 65172, 62322, 15470>>, <<14065, 24349, 62778, 42319>>, <<33489, 44518, 21119, 20750>>, <<27679, 11070, 26764, 39685>>, <<48491, 64321, 55723, 8067>>, <<8569, 4990, 52505, 23520>>, <<40665, 49413, 40285, 52155>>, <<54541, 13948, 10538, 25242>>, <<56599, 12400, 346, 37209>>, <<22841, 63246, 60632, 5423>>, <<2865, 65472, 9831, 26419>>, <<5393, 26712, 19079, 36532>>, <<36775, 25849, 11789, 56076>>, <<46171, 31251, 6697, 5282>>, <<16529, 18081, 2693, 10167>>, <<41233, 43218, 6790, 21018>>, <<8561, 1476, 6072, 37178>>, <<21481, 7200, 10406, 39706>>, <<33171, 23886, 39757, 47170>>, <<55783, 22790, 29000, 62393>>, <<50073, 14768, 57766, 643>>, <<44393, 8486, 52746, 8877>>, <<25527, 11768, 5176, 11280>>, <<24981, 31515, 28957, 20084>>, <<47637, 42696, 20083, 24974>>, <<57617, 1337, 12313, 30866>>, <<35589, 53758, 14674, 37017>>, <<7169, 53475, 59057, 44823>>, <<41529, 45833, 38248, 50984>>, <<26595, 6996, 16211, 54019>>, <<11145, 685, 55121, 61922>>, <<38813, 55596, 59777, 2711>>, <<18353, 29562, 54539, 6396>>, <<30013, 13179, 35527, 12350>>, <<11325, 21405, 61249, 19907>>, <<45571, 43457, 9016, 25659>>, <<27557, 20155, 14877, 17158>>, <<9955, 57181, 5795, 29043>>>>
RapidSecret == <<<<30885, 43628, 36300, 11573>>, <<44233, 38446, 19347, 35768>>, <<54435, 54323, 42542, 19251>>, <<43591, 7649, 11685, 19802>>, <<25647, 30909, 7524, 41078>>, <<10459, 41140, 32465, 59139>>, <<14476, 10268, 5989, 37101>>, <<43690, 43690, 43690, 43690>>>>
XXH3Secret == <<184, 254, 108, 57, 35, 164, 75, 190, 124, 1, 129, 44, 247, 33, 173, 28, 222, 212, 109, 233, 131, 144, 151, 219, 114, 64, 164, 164, 183, 179, 103, 31, 203, 121, 230, 78, 204, 192, 229, 120, 130, 90, 208, 125, 204, 255, 114, 33, 184, 8, 70, 116, 247, 67, 36, 142, 224, 53, 144, 230, 129, 58, 38, 76, 60, 40, 82, 187, 145, 195, 0, 203, 136, 208, 101, 139, 27, 83, 46, 163, 113, 100, 72, 151, 162, 13, 249, 78, 56, 25, 239, 70, 169, 222, 172, 216, 168, 250, 118, 63, 227, 156, 52, 63, 249, 220, 187, 199, 199, 11, 79, 29, 138, 81, 224, 75, 205, 180, 89, 49, 200, 159, 126, 201, 217, 120, 115, 100, 234, 197, 172, 131, 52, 211, 235, 195, 197, 129, 160, 255, 250, 19, 99, 235, 23, 13, 221, 81, 183, 240, 218, 73, 211, 22, 85, 38, 41, 212, 104, 158, 43, 22, 190, 88, 125, 71, 161, 252, 143, 248, 184, 209, 122, 208, 49, 206, 69, 203, 58, 143, 149, 22, 4, 40, 175, 215, 251, 202, 187, 75, 64, 126>>
FmixM1 == <<36045, 60757, 45015, 65361>>
FmixM2 == <<60499, 6789, 47614, 50382>>
Golden == <<31765, 32586, 31161, 40503>>
FnvBasis == <<8997, 33826, 40164, 52210>>
FnvPrime == <<435, 0, 256, 0>>
XP1 == <<51847, 34283, 31153, 40503>>
XP2 == <<60239, 10196, 44605, 49842>>
XP3 == <<31225, 40503, 26545, 5718>>
XP4 == <<44643, 49842, 51831, 34283>>
XP5 == <<26565, 5718, 60207, 10196>>
XMx1 == <<31225, 40503, 26513, 5718>>
XMx2 == <<57125, 7832, 7269, 40882>>
XP32_1 == <<31153, 40503, 0, 0>>
XP32_2 == <<51831, 34283, 0, 0>>
XP32_3 == <<44605, 49842, 0, 0>>
XP32_2m1 == <<51830, 34283, 0, 0>>
Sip0 == <<25973, 28787, 28005, 29551>>
Sip1 == <<28525, 28260, 29281, 25711>>
Sip2 == <<29281, 28261, 26469, 27769>>
Sip3 == <<25971, 31092, 25698, 29797>>
Mur1 == <<21461, 4418, 31633, 34755>>
Mur2 == <<37759, 10053, 44355, 19701>>
MurA == <<59177, 21212, 0, 0>>
MurB == <<23221, 14409, 0, 0>>
DumboInit == <<31765, 32586, 31161, 40503>>
DumboWord == <<42811, 33994, 44677, 47975>>
DumboState == <<63531, 65172, 62322, 15470>>
============================================================================
