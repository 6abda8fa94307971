------------------------------ MODULE EITable ------------------------------
(* Written by tools/eitable.py.  For z = k/4, k = -40..40:                  *)
(*   b(z) = z Phi(z) + phi(z), the expected improvement in units of the     *)
(*   standard deviation.  EI6: 10^6 b(z);  b(z) = EIMan * 10^-EIExp.        *)
EXTENDS Integers, Sequences
EI6T == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 7, 21, 58, 154, 382, 899, 2004, 4235, 8491, 16174, 29307, 50587, 83315, 131167, 197797, 286345, 398942, 536345, 697797, 881167, 1083315, 1300587, 1529307, 1766174, 2008491, 2254235, 2502004, 2750899, 3000382, 3250154, 3500058, 3750021, 4000007, 4250002, 4500001, 4750000, 5000000, 5250000, 5500000, 5750000, 6000000, 6250000, 6500000, 6750000, 7000000, 7250000, 7500000, 7750000, 8000000, 8250000, 8500000, 8750000, 9000000, 9250000, 9500000, 9750000, 10000000>>
EIManT == <<747456, 927061, 108146, 118664, 122478, 118921, 108631, 933632, 755026, 574582, 411518, 277408, 176033, 105164, 591562, 313372, 156357, 734940, 325501, 135867, 534617, 198362, 694212, 229240, 714526, 210309, 584809, 153717, 382154, 899214, 200414, 423459, 849070, 161738, 293068, 505869, 833155, 131167, 197797, 286345, 398942, 536345, 697797, 881167, 108332, 130059, 152931, 176617, 200849, 225423, 250200, 275090, 300038, 325015, 350006, 375002, 400001, 425000, 450000, 475000, 500000, 525000, 550000, 575000, 600000, 625000, 650000, 675000, 700000, 725000, 750000, 775000, 800000, 825000, 850000, 875000, 900000, 925000, 950000, 975000, 100000>>
EIExpT == <<30, 29, 27, 26, 25, 24, 23, 23, 22, 21, 20, 19, 18, 17, 17, 16, 15, 15, 14, 13, 13, 12, 12, 11, 11, 10, 10, 9, 9, 9, 8, 8, 8, 7, 7, 7, 7, 6, 6, 6, 6, 6, 6, 6, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 4>>
EI6(k) == EI6T[k + 41]
EIMan(k) == EIManT[k + 41]
EIExp(k) == EIExpT[k + 41]
=============================================================================
