---- MODULE NormTable ----
(* NORMCDF[i+1] = round(10^6 Phi(i/32)), NORMPDF[i+1] = round(10^6 phi(i/32)), i = 0..192; written by tools/ *)
NORMCDF == <<
500000, 512465, 524918, 537346, 549738, 562082, 574366, 586578, 598706, 610741, 622670, 634483,
646170, 657721, 669126, 680376, 691462, 702377, 713112, 723660, 734014, 744168, 754116, 763853,
773373, 782672, 791748, 800595, 809213, 817598, 825749, 833665, 841345, 848788, 855996, 862968,
869705, 876211, 882485, 888530, 894350, 899947, 905324, 910485, 915434, 920175, 924712, 929050,
933193, 937146, 940915, 944504, 947919, 951164, 954246, 957170, 959941, 962564, 965046, 967390,
969604, 971691, 973658, 975509, 977250, 978885, 980420, 981859, 983207, 984468, 985647, 986748,
987776, 988733, 989625, 990455, 991226, 991941, 992605, 993221, 993790, 994317, 994804, 995253,
995668, 996049, 996401, 996724, 997020, 997292, 997542, 997771, 997980, 998171, 998346, 998505,
998650, 998782, 998903, 999012, 999111, 999201, 999282, 999356, 999423, 999483, 999538, 999587,
999631, 999671, 999706, 999739, 999767, 999793, 999816, 999837, 999856, 999872, 999887, 999900,
999912, 999922, 999931, 999939, 999947, 999953, 999959, 999964, 999968, 999972, 999976, 999979,
999981, 999984, 999986, 999988, 999989, 999991, 999992, 999993, 999994, 999995, 999995, 999996,
999997, 999997, 999997, 999998, 999998, 999998, 999999, 999999, 999999, 999999, 999999, 999999,
999999, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000,
1000000>>
NORMPDF == <<
398942, 398748, 398164, 397193, 395838, 394102, 391991, 389511, 386668, 383472, 379931, 376055,
371855, 367343, 362532, 357435, 352065, 346438, 340568, 334470, 328161, 321657, 314974, 308128,
301137, 294018, 286787, 279460, 272055, 264588, 257074, 249530, 241971, 234412, 226867, 219351,
211877, 204457, 197105, 189832, 182649, 175566, 168593, 161739, 155012, 148420, 141970, 135667,
129518, 123526, 117697, 112033, 106538, 101214, 96062, 91083, 86277, 81646, 77188, 72902,
68786, 64840, 61060, 57445, 53991, 50695, 47554, 44564, 41721, 39021, 36461, 34035,
31740, 29570, 27522, 25591, 23772, 22061, 20453, 18943, 17528, 16203, 14963, 13805,
12724, 11716, 10778, 9905, 9094, 8341, 7643, 6996, 6398, 5846, 5335, 4865,
4432, 4033, 3667, 3331, 3022, 2740, 2481, 2245, 2029, 1832, 1653, 1490,
1341, 1206, 1084, 973, 873, 782, 700, 626, 559, 499, 445, 396,
353, 313, 278, 247, 219, 194, 172, 152, 134, 118, 104, 92,
81, 71, 62, 54, 48, 42, 37, 32, 28, 24, 21, 18,
16, 14, 12, 10, 9, 8, 7, 6, 5, 4, 4, 3,
3, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 0,
0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
0>>
====
