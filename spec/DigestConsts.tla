------------------------- MODULE DigestConsts -------------------------
(* Constant tables of the digest standards, derived from their defining formulas
   (primes' roots, sines, LFSR) -- generated, see DESIGN.md; words as in Words.tla. *)
K256 == <<<<12184,17034>>, <<17553,28983>>, <<64463,46528>>, <<56229,59829>>, <<49755,14678>>, <<4593,23025>>,
  <<33444,37439>>, <<24277,43804>>, <<43672,55303>>, <<23297,4739>>, <<34238,9265>>, <<32195,21772>>,
  <<23924,29374>>, <<45566,32990>>, <<1703,39900>>, <<61812,49563>>, <<27073,58523>>, <<18310,61374>>,
  <<40390,4033>>, <<41420,9228>>, <<11375,11753>>, <<33962,19060>>, <<43484,23728>>, <<35034,30457>>,
  <<20818,38974>>, <<50797,43057>>, <<10184,45059>>, <<32711,48985>>, <<3059,50912>>, <<37191,54695>>,
  <<25425,1738>>, <<10599,5161>>, <<2693,10167>>, <<8504,11803>>, <<28156,19756>>, <<3347,21304>>,
  <<29524,25866>>, <<2747,30314>>, <<51502,33218>>, <<11397,37490>>, <<59553,41663>>, <<26187,43034>>,
  <<35696,49739>>, <<20899,51052>>, <<59417,53650>>, <<1572,54937>>, <<13701,62478>>, <<41072,4202>>,
  <<49430,6564>>, <<27656,7735>>, <<30540,10056>>, <<48309,13488>>, <<3251,14620>>, <<43594,20184>>,
  <<51791,23452>>, <<28659,26670>>, <<33518,29839>>, <<25455,30885>>, <<30740,33992>>, <<520,36039>>,
  <<65530,37054>>, <<27883,42064>>, <<41975,48889>>, <<30962,50801>>>>
H256 == <<<<58983,27145>>, <<44677,47975>>, <<62322,15470>>, <<62778,42319>>, <<21119,20750>>, <<26764,39685>>,
  <<55723,8067>>, <<52505,23520>>>>
H224 == <<<<40664,49413>>, <<54535,13948>>, <<56599,12400>>, <<22841,63246>>, <<2865,65472>>, <<5393,26712>>,
  <<36775,25849>>, <<20388,48890>>>>
K512 == <<<<44578,55080,12184,17034>>, <<26061,9199,17553,28983>>, <<15151,60493,64463,46528>>, <<56252,33161,56229,59829>>, <<46392,62280,49755,14678>>, <<53273,46597,4593,23025>>,
  <<20379,44825,33444,37439>>, <<33048,55917,24277,43804>>, <<578,41731,43672,55303>>, <<28606,17776,23297,4739>>, <<45708,20196,34238,9265>>, <<46306,54783,32195,21772>>,
  <<35183,62075,23924,29374>>, <<38577,15126,45566,32990>>, <<4661,9671,1703,39900>>, <<9876,53097,61812,49563>>, <<19154,40689,27073,58523>>, <<9699,14415,18310,61374>>,
  <<54709,35724,40390,4033>>, <<40037,30636,41420,9228>>, <<629,22827,11375,11753>>, <<58499,28326,33962,19060>>, <<64468,48449,43484,23728>>, <<21429,33553,35034,30457>>,
  <<57259,61030,20818,38974>>, <<12816,11700,50797,43057>>, <<8511,39163,10184,45059>>, <<3812,48879,32711,48985>>, <<36802,15784,3059,50912>>, <<42789,37642,37191,54695>>,
  <<33391,57347,25425,1738>>, <<28272,2574,10599,5161>>, <<12284,18130,2693,10167>>, <<51494,23590,8504,11803>>, <<10989,23236,28156,19756>>, <<46047,40341,3347,21304>>,
  <<25566,35759,29524,25866>>, <<45736,15479,2747,30314>>, <<44774,18413,51502,33218>>, <<13627,5250,11397,37490>>, <<868,19697,59553,41663>>, <<12289,48194,26187,43034>>,
  <<38801,53496,35696,49739>>, <<48688,1620,20899,51052>>, <<21016,55023,59417,53650>>, <<43280,21861,1572,54937>>, <<8234,22385,13701,62478>>, <<53688,12987,41072,4202>>,
  <<53448,47314,49430,6564>>, <<43859,20801,27656,7735>>, <<60313,57230,30540,10056>>, <<18600,57755,48309,13488>>, <<23139,50633,3251,14620>>, <<35531,58177,43594,20184>>,
  <<58227,30563,51791,23452>>, <<47267,54962,28659,26670>>, <<45820,24047,33518,29839>>, <<12128,17175,25455,30885>>, <<43890,41456,30740,33992>>, <<14828,6756,520,36039>>,
  <<7720,9059,65530,37054>>, <<48617,56962,27883,42064>>, <<30997,45766,41975,48889>>, <<21291,58226,30962,50801>>, <<24988,59942,16078,51751>>, <<49671,8640,47303,53638>>,
  <<60190,52704,32214,60122>>, <<53624,61038,20351,62845>>, <<28602,29207,26538,1776>>, <<39078,41672,32197,2659>>, <<3502,48889,38916,4415>>, <<18203,4892,2869,7025>>,
  <<32132,8964,30709,10459>>, <<9363,16583,43899,13002>>, <<48828,5577,48650,15518>>, <<3404,39952,26564,17181>>, <<17078,52030,54462,19653>>, <<32298,64613,10652,22911>>,
  <<64236,15062,28587,24523>>, <<22551,19015,6540,27716>>>>
H512 == <<<<51464,62396,58983,27145>>, <<42811,33994,44677,47975>>, <<63531,65172,62322,15470>>, <<14065,24349,62778,42319>>, <<33489,44518,21119,20750>>, <<27679,11070,26764,39685>>,
  <<48491,64321,55723,8067>>, <<8569,4990,52505,23520>>>>
H384 == <<<<40664,49413,40285,52155>>, <<54535,13948,10538,25242>>, <<56599,12400,346,37209>>, <<22841,63246,60632,5423>>, <<2865,65472,9831,26419>>, <<5393,26712,19079,36532>>,
  <<36775,25849,11789,56076>>, <<20388,48890,18461,18357>>>>
KMD5 == <<<<42104,55146>>, <<46934,59591>>, <<28891,9248>>, <<52974,49597>>, <<4015,62844>>, <<50730,18311>>,
  <<17939,43056>>, <<38145,64838>>, <<39128,27008>>, <<63407,35652>>, <<23473,65535>>, <<55230,35164>>,
  <<4386,27536>>, <<29075,64920>>, <<17294,42617>>, <<2081,18868>>, <<9570,63006>>, <<45888,49216>>,
  <<23121,9822>>, <<51114,59830>>, <<4189,54831>>, <<5203,580>>, <<59009,55457>>, <<64456,59347>>,
  <<52710,8673>>, <<2006,49975>>, <<3463,62677>>, <<5357,17754>>, <<59653,43491>>, <<41976,64751>>,
  <<729,26479>>, <<19594,36138>>, <<14658,65530>>, <<63105,34673>>, <<24866,28061>>, <<14348,64997>>,
  <<59972,42174>>, <<53161,19422>>, <<19296,63163>>, <<48240,48831>>, <<32454,10395>>, <<10234,60065>>,
  <<12421,54511>>, <<7429,1160>>, <<53305,55764>>, <<39397,59099>>, <<31992,8098>>, <<22117,50348>>,
  <<8772,62505>>, <<65431,17194>>, <<9127,43924>>, <<41017,64659>>, <<22979,25947>>, <<52370,36620>>,
  <<62589,65519>>, <<24017,34180>>, <<32335,28584>>, <<59104,65068>>, <<17172,41729>>, <<4513,19976>>,
  <<32386,63315>>, <<62005,48442>>, <<53947,10967>>, <<54161,60294>>>>
KeccakRC == <<<<1,0,0,0>>, <<32898,0,0,0>>, <<32906,0,0,32768>>, <<32768,32768,0,32768>>, <<32907,0,0,0>>, <<1,32768,0,0>>,
  <<32897,32768,0,32768>>, <<32777,0,0,32768>>, <<138,0,0,0>>, <<136,0,0,0>>, <<32777,32768,0,0>>, <<10,32768,0,0>>,
  <<32907,32768,0,0>>, <<139,0,0,32768>>, <<32905,0,0,32768>>, <<32771,0,0,32768>>, <<32770,0,0,32768>>, <<128,0,0,32768>>,
  <<32778,0,0,0>>, <<10,32768,0,32768>>, <<32897,32768,0,32768>>, <<32896,0,0,32768>>, <<1,32768,0,0>>, <<32776,32768,0,32768>>>>
KeccakRho == <<0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14>>
KeccakPiSrc == <<1, 7, 13, 19, 25, 4, 10, 11, 17, 23, 2, 8, 14, 20, 21, 5, 6, 12, 18, 24, 3, 9, 15, 16, 22>>
Sigma == <<<<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16>>, <<15, 11, 5, 9, 10, 16, 14, 7, 2, 13, 1, 3, 12, 8, 6, 4>>, <<12, 9, 13, 1, 6, 3, 16, 14, 11, 15, 4, 7, 8, 2, 10, 5>>, <<8, 10, 4, 2, 14, 13, 12, 15, 3, 7, 6, 11, 5, 1, 16, 9>>, <<10, 1, 6, 8, 3, 5, 11, 16, 15, 2, 12, 13, 7, 9, 4, 14>>, <<3, 13, 7, 11, 1, 12, 9, 4, 5, 14, 8, 6, 16, 15, 2, 10>>, <<13, 6, 2, 16, 15, 14, 5, 11, 1, 8, 7, 4, 10, 3, 9, 12>>, <<14, 12, 8, 15, 13, 2, 4, 10, 6, 1, 16, 5, 9, 7, 3, 11>>, <<7, 16, 15, 10, 12, 4, 1, 9, 13, 3, 14, 8, 2, 5, 11, 6>>, <<11, 3, 9, 5, 8, 7, 2, 6, 16, 12, 10, 15, 4, 13, 14, 1>>>>
======================================================================
