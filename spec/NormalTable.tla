---------------------------- MODULE NormalTable ----------------------------
EXTENDS Integers, Sequences
(* Standard normal distribution: cumulative probability and density at      *)
(* 0, 0.01, ..., 5.01 in millionths (written by tools/normtable.py).         *)
CumTable == <<
    500000, 503989, 507978, 511966, 515953, 519939, 523922, 527903, 531881, 535856, 539828, 543795,
    547758, 551717, 555670, 559618, 563559, 567495, 571424, 575345, 579260, 583166, 587064, 590954,
    594835, 598706, 602568, 606420, 610261, 614092, 617911, 621720, 625516, 629300, 633072, 636831,
    640576, 644309, 648027, 651732, 655422, 659097, 662757, 666402, 670031, 673645, 677242, 680822,
    684386, 687933, 691462, 694974, 698468, 701944, 705401, 708840, 712260, 715661, 719043, 722405,
    725747, 729069, 732371, 735653, 738914, 742154, 745373, 748571, 751748, 754903, 758036, 761148,
    764238, 767305, 770350, 773373, 776373, 779350, 782305, 785236, 788145, 791030, 793892, 796731,
    799546, 802337, 805105, 807850, 810570, 813267, 815940, 818589, 821214, 823814, 826391, 828944,
    831472, 833977, 836457, 838913, 841345, 843752, 846136, 848495, 850830, 853141, 855428, 857690,
    859929, 862143, 864334, 866500, 868643, 870762, 872857, 874928, 876976, 879000, 881000, 882977,
    884930, 886861, 888768, 890651, 892512, 894350, 896165, 897958, 899727, 901475, 903200, 904902,
    906582, 908241, 909877, 911492, 913085, 914657, 916207, 917736, 919243, 920730, 922196, 923641,
    925066, 926471, 927855, 929219, 930563, 931888, 933193, 934478, 935745, 936992, 938220, 939429,
    940620, 941792, 942947, 944083, 945201, 946301, 947384, 948449, 949497, 950529, 951543, 952540,
    953521, 954486, 955435, 956367, 957284, 958185, 959070, 959941, 960796, 961636, 962462, 963273,
    964070, 964852, 965620, 966375, 967116, 967843, 968557, 969258, 969946, 970621, 971283, 971933,
    972571, 973197, 973810, 974412, 975002, 975581, 976148, 976705, 977250, 977784, 978308, 978822,
    979325, 979818, 980301, 980774, 981237, 981691, 982136, 982571, 982997, 983414, 983823, 984222,
    984614, 984997, 985371, 985738, 986097, 986447, 986791, 987126, 987455, 987776, 988089, 988396,
    988696, 988989, 989276, 989556, 989830, 990097, 990358, 990613, 990863, 991106, 991344, 991576,
    991802, 992024, 992240, 992451, 992656, 992857, 993053, 993244, 993431, 993613, 993790, 993963,
    994132, 994297, 994457, 994614, 994766, 994915, 995060, 995201, 995339, 995473, 995604, 995731,
    995855, 995975, 996093, 996207, 996319, 996427, 996533, 996636, 996736, 996833, 996928, 997020,
    997110, 997197, 997282, 997365, 997445, 997523, 997599, 997673, 997744, 997814, 997882, 997948,
    998012, 998074, 998134, 998193, 998250, 998305, 998359, 998411, 998462, 998511, 998559, 998605,
    998650, 998694, 998736, 998777, 998817, 998856, 998893, 998930, 998965, 998999, 999032, 999065,
    999096, 999126, 999155, 999184, 999211, 999238, 999264, 999289, 999313, 999336, 999359, 999381,
    999402, 999423, 999443, 999462, 999481, 999499, 999517, 999534, 999550, 999566, 999581, 999596,
    999610, 999624, 999638, 999651, 999663, 999675, 999687, 999698, 999709, 999720, 999730, 999740,
    999749, 999758, 999767, 999776, 999784, 999792, 999800, 999807, 999815, 999822, 999828, 999835,
    999841, 999847, 999853, 999858, 999864, 999869, 999874, 999879, 999883, 999888, 999892, 999896,
    999900, 999904, 999908, 999912, 999915, 999918, 999922, 999925, 999928, 999931, 999933, 999936,
    999938, 999941, 999943, 999946, 999948, 999950, 999952, 999954, 999956, 999958, 999959, 999961,
    999963, 999964, 999966, 999967, 999968, 999970, 999971, 999972, 999973, 999974, 999975, 999976,
    999977, 999978, 999979, 999980, 999981, 999982, 999983, 999983, 999984, 999985, 999985, 999986,
    999987, 999987, 999988, 999988, 999989, 999989, 999990, 999990, 999991, 999991, 999991, 999992,
    999992, 999993, 999993, 999993, 999993, 999994, 999994, 999994, 999995, 999995, 999995, 999995,
    999996, 999996, 999996, 999996, 999996, 999996, 999997, 999997, 999997, 999997, 999997, 999997,
    999997, 999998, 999998, 999998, 999998, 999998, 999998, 999998, 999998, 999998, 999998, 999998,
    999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999,
    999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 999999, 1000000, 1000000,
    1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000, 1000000 >>
PdfTable == <<
    398942, 398922, 398862, 398763, 398623, 398444, 398225, 397966, 397668, 397330, 396953, 396536,
    396080, 395585, 395052, 394479, 393868, 393219, 392531, 391806, 391043, 390242, 389404, 388529,
    387617, 386668, 385683, 384663, 383606, 382515, 381388, 380226, 379031, 377801, 376537, 375240,
    373911, 372548, 371154, 369728, 368270, 366782, 365263, 363714, 362135, 360527, 358890, 357225,
    355533, 353812, 352065, 350292, 348493, 346668, 344818, 342944, 341046, 339124, 337180, 335213,
    333225, 331215, 329184, 327133, 325062, 322972, 320864, 318737, 316593, 314432, 312254, 310060,
    307851, 305627, 303389, 301137, 298872, 296595, 294305, 292004, 289692, 287369, 285036, 282694,
    280344, 277985, 275618, 273244, 270864, 268477, 266085, 263688, 261286, 258881, 256471, 254059,
    251644, 249228, 246809, 244390, 241971, 239551, 237132, 234714, 232297, 229882, 227470, 225060,
    222653, 220251, 217852, 215458, 213069, 210686, 208308, 205936, 203571, 201214, 198863, 196520,
    194186, 191860, 189543, 187235, 184937, 182649, 180371, 178104, 175847, 173602, 171369, 169147,
    166937, 164740, 162555, 160383, 158225, 156080, 153948, 151831, 149727, 147639, 145564, 143505,
    141460, 139431, 137417, 135418, 133435, 131468, 129518, 127583, 125665, 123763, 121878, 120009,
    118157, 116323, 114505, 112704, 110921, 109155, 107406, 105675, 103961, 102265, 100586, 98925,
    97282, 95657, 94049, 92459, 90887, 89333, 87796, 86277, 84776, 83293, 81828, 80380,
    78950, 77538, 76143, 74766, 73407, 72065, 70740, 69433, 68144, 66871, 65616, 64378,
    63157, 61952, 60765, 59595, 58441, 57304, 56183, 55079, 53991, 52919, 51864, 50824,
    49800, 48792, 47800, 46823, 45861, 44915, 43984, 43067, 42166, 41280, 40408, 39550,
    38707, 37878, 37063, 36262, 35475, 34701, 33941, 33194, 32460, 31740, 31032, 30337,
    29655, 28985, 28327, 27682, 27048, 26426, 25817, 25218, 24631, 24056, 23491, 22937,
    22395, 21862, 21341, 20829, 20328, 19837, 19356, 18885, 18423, 17971, 17528, 17095,
    16670, 16254, 15848, 15449, 15060, 14678, 14305, 13940, 13583, 13234, 12892, 12558,
    12232, 11912, 11600, 11295, 10997, 10706, 10421, 10143, 9871, 9606, 9347, 9094,
    8846, 8605, 8370, 8140, 7915, 7697, 7483, 7274, 7071, 6873, 6679, 6491,
    6307, 6127, 5953, 5782, 5616, 5454, 5296, 5143, 4993, 4847, 4705, 4567,
    4432, 4301, 4173, 4049, 3928, 3810, 3695, 3584, 3475, 3370, 3267, 3167,
    3070, 2975, 2884, 2794, 2707, 2623, 2541, 2461, 2384, 2309, 2236, 2165,
    2096, 2029, 1964, 1901, 1840, 1780, 1723, 1667, 1612, 1560, 1508, 1459,
    1411, 1364, 1319, 1275, 1232, 1191, 1151, 1112, 1075, 1038, 1003, 969,
    936, 904, 873, 843, 814, 785, 758, 732, 706, 681, 657, 634,
    612, 590, 569, 549, 529, 510, 492, 474, 457, 441, 425, 409,
    394, 380, 366, 353, 340, 327, 315, 303, 292, 281, 271, 260,
    251, 241, 232, 223, 215, 207, 199, 191, 184, 177, 170, 163,
    157, 151, 145, 139, 134, 129, 124, 119, 114, 109, 105, 101,
    97, 93, 89, 86, 82, 79, 76, 73, 70, 67, 64, 61,
    59, 57, 54, 52, 50, 48, 46, 44, 42, 40, 39, 37,
    35, 34, 32, 31, 30, 28, 27, 26, 25, 24, 23, 22,
    21, 20, 19, 18, 17, 17, 16, 15, 15, 14, 13, 13,
    12, 12, 11, 11, 10, 10, 9, 9, 8, 8, 8, 7,
    7, 7, 6, 6, 6, 6, 5, 5, 5, 5, 4, 4,
    4, 4, 4, 3, 3, 3, 3, 3, 3, 3, 2, 2,
    2, 2, 2, 2, 2, 2, 2, 2, 1, 1 >>
Magnitude(x) == IF x < 0 THEN 0 - x ELSE x
(* rounded division, b > 0 *)
Over(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE 0 - ((b \div 2 - a) \div b)
Between(T, z) == LET i == z \div 10 IN T[i + 1] + Over((T[i + 2] - T[i + 1]) * (z % 10), 10)
(* cumulative probability and density in millionths at z thousandths *)
Cum(z) == IF z >= 5000 THEN 1000000 ELSE IF z <= 0 - 5000 THEN 0
          ELSE IF z >= 0 THEN Between(CumTable, z) ELSE 1000000 - Between(CumTable, 0 - z)
Pdf(z) == IF Magnitude(z) >= 5000 THEN 0 ELSE Between(PdfTable, Magnitude(z))
=============================================================================
