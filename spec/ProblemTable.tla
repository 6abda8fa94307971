---------------------------- MODULE ProblemTable ----------------------------
(* Written by tools/problemtable.py: the parts of the published formulas that *)
(* are not rational, on lattices, in fixed point.                             *)
EXTENDS Integers, Sequences
T_AckR == <<<<20000000, 18096748, 17362469, 16819303, 16374615, 15992590, 15654890, 15350640, 15072766, 14816364, 14577868, 14354591, 14144447, 13945783, 13757258, 13577771, 13406401, 13242372, 13085022, 12933779, 12788146, 12647691, 12512031, 12380828, 12253778, 12130613, 12011089, 11894987, 11782107, 11672268, 11565306, 11461067, 11359414, 11260218, 11163361, 11068733, 10976233, 10885766, 10797244, 10710585, 10625712, 10542554, 10461043, 10381116, 10302714, 10225779, 10150260, 10076105, 10003269, 9931706, 9861374, 9792232, 9724243, 9657369, 9591577, 9526834, 9463107, 9400368, 9338587, 9277737, 9217793, 9158728, 9100519, 9043144, 8986579, 8930805, 8875800, 8821545, 8768021, 8715211, 8663097, 8611662, 8560890, 8510766, 8461274, 8412401, 8364131, 8316453, 8269352, 8222817, 8176834, 8131393, 8086482, 8042089, 7998205, 7954818, 7911920, 7869499, 7827547, 7786054, 7745012, 7704411, 7664245, 7624503, 7585180, 7546266, 7507754, 7469638, 7431909, 7394562, 7357589, 7320984, 7284740, 7248852, 7213313, 7178118, 7143260, 7108734, 7074536, 7040658, 7007097, 6973846, 6940902, 6908259, 6875913, 6843859, 6812092, 6780609, 6749404, 6718474, 6687815, 6657422, 6627291, 6597420, 6567803, 6538438, 6509320, 6480447, 6451815, 6423419, 6395258, 6367328, 6339626, 6312148, 6284892, 6257854, 6231032, 6204422, 6178023, 6151830, 6125843, 6100057, 6074470, 6049080, 6023884, 5998880, 5974065, 5949438, 5924995, 5900734, 5876653, 5852750, 5829023, 5805470, 5782088, 5758876, 5735831, 5712952, 5690236, 5667682, 5645288, 5623052, 5600972, 5579046, 5557272, 5535650, 5514177, 5492851, 5471671, 5450636, 5429743, 5408991, 5388379, 5367905, 5347567, 5327364, 5307295, 5287359, 5267553, 5247876, 5228328, 5208906, 5189610, 5170438, 5151388, 5132461, 5113653, 5094965, 5076395, 5057941, 5039603, 5021380, 5003270, 4985272, 4967385, 4949607, 4931939, 4914379, 4896925, 4879578, 4862335, 4845195, 4828159, 4811224, 4794390, 4777657, 4761022, 4744485, 4728045, 4711701, 4695453, 4679299, 4663239, 4647272, 4631396, 4615612, 4599918, 4584313, 4568797, 4553369, 4538028, 4522773, 4507604, 4492520, 4477520, 4462603, 4447769, 4433017, 4418346, 4403755, 4389245, 4374813, 4360460, 4346185, 4331987, 4317866, 4303821, 4289850, 4275955, 4262133, 4248385, 4234710, 4221107, 4207575, 4194115, 4180725, 4167405, 4154154, 4140973, 4127859, 4114813, 4101835, 4088922, 4076077, 4063296, 4050581, 4037930, 4025344, 4012821, 4000361, 3987964, 3975628, 3963355, 3951143, 3938991, 3926900, 3914868, 3902896, 3890983, 3879128, 3867331, 3855592, 3843910, 3832285, 3820716, 3809203, 3797745, 3786343, 3774995, 3763702, 3752462, 3741276, 3730144, 3719064, 3708036, 3697060, 3686136, 3675264, 3664442, 3653670, 3642949, 3632278, 3621657, 3611084, 3600560, 3590085, 3579658, 3569279, 3558947, 3548662, 3538424, 3528233, 3518088, 3507988, 3497935, 3487926, 3477963, 3468044, 3458169, 3448339, 3438552, 3428809, 3419109, 3409452, 3399838, 3390266, 3380736, 3371248, 3361801, 3352395, 3343031, 3333707, 3324424, 3315181, 3305978, 3296814, 3287690, 3278605, 3269559, 3260552, 3251583, 3242653, 3233760, 3224905, 3216088, 3207307, 3198564, 3189858, 3181188, 3172554, 3163957, 3155395, 3146869, 3138379, 3129924, 3121503, 3113118, 3104767, 3096451, 3088168, 3079920, 3071705, 3063524, 3055377, 3047262, 3039180, 3031132, 3023115, 3015132, 3007180, 2999260, 2991372, 2983516, 2975691, 2967898, 2960135, 2952404, 2944703, 2937032, 2929392, 2921782, 2914203, 2906653, 2899132, 2891641, 2884180, 2876748, 2869344, 2861970, 2854624, 2847306, 2840017, 2832756, 2825524, 2818319>>, <<20000000, 18634628, 18096748, 17694570, 17362469, 17075051, 16819303, 16587500, 16374615, 16177158, 15992590, 15818996, 15654890, 15499090, 15350640, 15208751, 15072766, 14942129, 14816364, 14695063, 14577868, 14464469, 14354591, 14247989, 14144447, 14043770, 13945783, 13850327, 13757258, 13666446, 13577771, 13491123, 13406401, 13323513, 13242372, 13162900, 13085022, 13008669, 12933779, 12860290, 12788146, 12717297, 12647691, 12579284, 12512031, 12445892, 12380828, 12316801, 12253778, 12191726, 12130613, 12070410, 12011089, 11952623, 11894987, 11838156, 11782107, 11726818, 11672268, 11618437, 11565306, 11512855, 11461067, 11409926, 11359414, 11309517, 11260218, 11211504, 11163361, 11115775, 11068733, 11022223, 10976233, 10930751, 10885766, 10841267, 10797244, 10753686, 10710585, 10667930, 10625712, 10583923, 10542554, 10501597, 10461043, 10420886, 10381116, 10341728, 10302714, 10264066, 10225779, 10187846, 10150260, 10113015, 10076105, 10039525, 10003269, 9967331, 9931706, 9896389, 9861374, 9826657, 9792232, 9758096, 9724243, 9690669, 9657369, 9624340, 9591577, 9559076, 9526834, 9494845, 9463107, 9431616, 9400368, 9369359, 9338587, 9308047, 9277737, 9247653, 9217793, 9188152, 9158728, 9129518, 9100519, 9071729, 9043144, 9014762, 8986579, 8958595, 8930805, 8903207, 8875800, 8848580, 8821545, 8794693, 8768021, 8741528, 8715211, 8689068, 8663097, 8637295, 8611662, 8586194, 8560890, 8535748, 8510766, 8485942, 8461274, 8436761, 8412401, 8388191, 8364131, 8340219, 8316453, 8292831, 8269352, 8246015, 8222817, 8199757, 8176834, 8154047, 8131393, 8108872, 8086482, 8064221, 8042089, 8020084, 7998205, 7976450, 7954818, 7933309, 7911920, 7890650, 7869499, 7848465, 7827547, 7806743, 7786054, 7765477, 7745012, 7724657, 7704411, 7684274, 7664245, 7644321, 7624503, 7604790, 7585180, 7565672, 7546266, 7526960, 7507754, 7488647, 7469638, 7450725, 7431909, 7413188, 7394562, 7376029, 7357589, 7339241, 7320984, 7302817, 7284740, 7266752, 7248852, 7231039, 7213313, 7195673, 7178118, 7160647, 7143260, 7125956, 7108734, 7091594, 7074536, 7057557, 7040658, 7023838, 7007097, 6990433, 6973846, 6957336, 6940902, 6924543, 6908259, 6892049, 6875913, 6859850, 6843859, 6827940, 6812092, 6796315, 6780609, 6764972, 6749404, 6733905, 6718474, 6703111, 6687815, 6672585, 6657422, 6642324, 6627291, 6612323, 6597420, 6582580, 6567803, 6553089, 6538438, 6523848, 6509320, 6494853, 6480447, 6466101, 6451815, 6437588, 6423419, 6409310, 6395258, 6381265, 6367328, 6353449, 6339626, 6325859, 6312148, 6298492, 6284892, 6271345, 6257854, 6244416, 6231032, 6217700, 6204422, 6191196, 6178023, 6164901, 6151830, 6138811, 6125843, 6112925, 6100057, 6087239, 6074470, 6061751, 6049080, 6036458, 6023884, 6011358, 5998880, 5986449, 5974065, 5961728, 5949438, 5937193, 5924995, 5912842, 5900734, 5888671, 5876653, 5864680, 5852750, 5840865, 5829023, 5817225, 5805470, 5793758, 5782088, 5770461, 5758876, 5747333, 5735831, 5724371, 5712952, 5701574, 5690236, 5678939, 5667682, 5656465, 5645288, 5634150, 5623052, 5611992, 5600972, 5589989, 5579046, 5568140, 5557272, 5546443, 5535650, 5524895, 5514177, 5503496, 5492851, 5482243, 5471671, 5461136, 5450636, 5440172, 5429743, 5419349, 5408991, 5398668, 5388379, 5378125, 5367905, 5357719, 5347567, 5337449, 5327364, 5317313, 5307295, 5297311, 5287359, 5277439, 5267553, 5257698, 5247876, 5238086, 5228328, 5218601, 5208906, 5199242, 5189610, 5180008, 5170438, 5160898, 5151388, 5141909, 5132461, 5123042, 5113653, 5104295, 5094965, 5085665, 5076395, 5067154, 5057941, 5048758, 5039603, 5030477, 5021380, 5012311, 5003270>>, <<20000000, 18878000, 18431896, 18096748, 17818945, 17577731, 17362469, 17166842, 16986739, 16819303, 16662457, 16514633, 16374615, 16241435, 16114308, 15992590, 15875740, 15763303, 15654890, 15550163, 15448832, 15350640, 15255361, 15162796, 15072766, 14985111, 14899688, 14816364, 14735024, 14655558, 14577868, 14501865, 14427464, 14354591, 14283173, 14213145, 14144447, 14077022, 14010817, 13945783, 13881873, 13819045, 13757258, 13696473, 13636656, 13577771, 13519786, 13462673, 13406401, 13350944, 13296276, 13242372, 13189210, 13136767, 13085022, 13033955, 12983546, 12933779, 12884634, 12836095, 12788146, 12740773, 12693959, 12647691, 12601956, 12556740, 12512031, 12467817, 12424086, 12380828, 12338030, 12295684, 12253778, 12212304, 12171252, 12130613, 12090379, 12050540, 12011089, 11972018, 11933320, 11894987, 11857011, 11819387, 11782107, 11745165, 11708554, 11672268, 11636302, 11600650, 11565306, 11530264, 11495519, 11461067, 11426902, 11393019, 11359414, 11326082, 11293018, 11260218, 11227678, 11195394, 11163361, 11131576, 11100034, 11068733, 11037668, 11006836, 10976233, 10945856, 10915701, 10885766, 10856046, 10826540, 10797244, 10768154, 10739269, 10710585, 10682099, 10653809, 10625712, 10597806, 10570087, 10542554, 10515204, 10488035, 10461043, 10434228, 10407586, 10381116, 10354816, 10328682, 10302714, 10276908, 10251264, 10225779, 10200451, 10175279, 10150260, 10125392, 10100675, 10076105, 10051682, 10027404, 10003269, 9979275, 9955422, 9931706, 9908127, 9884684, 9861374, 9838196, 9815149, 9792232, 9769443, 9746780, 9724243, 9701829, 9679539, 9657369, 9635320, 9613390, 9591577, 9569881, 9548300, 9526834, 9505480, 9484238, 9463107, 9442086, 9421173, 9400368, 9379669, 9359076, 9338587, 9318202, 9297919, 9277737, 9257657, 9237675, 9217793, 9198008, 9178320, 9158728, 9139231, 9119829, 9100519, 9081303, 9062178, 9043144, 9024200, 9005345, 8986579, 8967901, 8949310, 8930805, 8912385, 8894050, 8875800, 8857632, 8839548, 8821545, 8803623, 8785782, 8768021, 8750339, 8732736, 8715211, 8697763, 8680392, 8663097, 8645877, 8628732, 8611662, 8594665, 8577741, 8560890, 8544111, 8527403, 8510766, 8494199, 8477702, 8461274, 8444915, 8428624, 8412401, 8396244, 8380155, 8364131, 8348174, 8332281, 8316453, 8300689, 8284989, 8269352, 8253778, 8238267, 8222817, 8207429, 8192101, 8176834, 8161628, 8146481, 8131393, 8116364, 8101394, 8086482, 8071627, 8056830, 8042089, 8027405, 8012777, 7998205, 7983688, 7969226, 7954818, 7940465, 7926166, 7911920, 7897727, 7883586, 7869499, 7855463, 7841479, 7827547, 7813665, 7799834, 7786054, 7772323, 7758643, 7745012, 7731430, 7717896, 7704411, 7690975, 7677586, 7664245, 7650951, 7637704, 7624503, 7611350, 7598242, 7585180, 7572163, 7559192, 7546266, 7533384, 7520547, 7507754, 7495005, 7482300, 7469638, 7457019, 7444443, 7431909, 7419418, 7406969, 7394562, 7382196, 7369872, 7357589, 7345347, 7333145, 7320984, 7308863, 7296782, 7284740, 7272738, 7260776, 7248852, 7236967, 7225121, 7213313, 7201543, 7189812, 7178118, 7166461, 7154842, 7143260, 7131715, 7120206, 7108734, 7097299, 7085899, 7074536, 7063208, 7051915, 7040658, 7029436, 7018249, 7007097, 6995979, 6984895, 6973846, 6962831, 6951850, 6940902, 6929988, 6919107, 6908259, 6897444, 6886662, 6875913, 6865196, 6854511, 6843859, 6833238, 6822650, 6812092, 6801567, 6791072, 6780609, 6770176, 6759775, 6749404, 6739064, 6728754, 6718474, 6708224, 6698005, 6687815, 6677654, 6667523, 6657422, 6647349, 6637306, 6627291, 6617306, 6607348, 6597420, 6587519, 6577647, 6567803, 6557987, 6548199, 6538438, 6528705, 6518999, 6509320, 6499669, 6490045, 6480447, 6470876, 6461332, 6451815>>, <<20000000, 19024588, 18634628, 18340830, 18096748, 17884401, 17694570, 17521781, 17362469, 17214160, 17075051, 16943784, 16819303, 16700768, 16587500, 16478938, 16374615, 16274134, 16177158, 16083394, 15992590, 15904522, 15818996, 15735837, 15654890, 15576016, 15499090, 15423999, 15350640, 15278919, 15208751, 15140058, 15072766, 15006811, 14942129, 14878665, 14816364, 14755179, 14695063, 14635973, 14577868, 14520712, 14464469, 14409106, 14354591, 14300894, 14247989, 14195848, 14144447, 14093762, 14043770, 13994450, 13945783, 13897748, 13850327, 13803502, 13757258, 13711578, 13666446, 13621848, 13577771, 13534200, 13491123, 13448527, 13406401, 13364733, 13323513, 13282729, 13242372, 13202432, 13162900, 13123766, 13085022, 13046659, 13008669, 12971045, 12933779, 12896862, 12860290, 12824053, 12788146, 12752563, 12717297, 12682342, 12647691, 12613341, 12579284, 12545516, 12512031, 12478825, 12445892, 12413228, 12380828, 12348687, 12316801, 12285166, 12253778, 12222633, 12191726, 12161054, 12130613, 12100400, 12070410, 12040641, 12011089, 11981751, 11952623, 11923703, 11894987, 11866472, 11838156, 11810035, 11782107, 11754369, 11726818, 11699452, 11672268, 11645264, 11618437, 11591785, 11565306, 11538996, 11512855, 11486879, 11461067, 11435417, 11409926, 11384592, 11359414, 11334390, 11309517, 11284794, 11260218, 11235789, 11211504, 11187362, 11163361, 11139499, 11115775, 11092187, 11068733, 11045412, 11022223, 10999164, 10976233, 10953429, 10930751, 10908197, 10885766, 10863456, 10841267, 10819196, 10797244, 10775407, 10753686, 10732079, 10710585, 10689202, 10667930, 10646767, 10625712, 10604765, 10583923, 10563187, 10542554, 10522025, 10501597, 10481270, 10461043, 10440916, 10420886, 10400953, 10381116, 10361375, 10341728, 10322175, 10302714, 10283344, 10264066, 10244878, 10225779, 10206768, 10187846, 10169009, 10150260, 10131595, 10113015, 10094519, 10076105, 10057775, 10039525, 10021357, 10003269, 9985261, 9967331, 9949480, 9931706, 9914009, 9896389, 9878844, 9861374, 9843978, 9826657, 9809408, 9792232, 9775128, 9758096, 9741134, 9724243, 9707421, 9690669, 9673985, 9657369, 9640821, 9624340, 9607926, 9591577, 9575294, 9559076, 9542923, 9526834, 9510808, 9494845, 9478945, 9463107, 9447331, 9431616, 9415962, 9400368, 9384834, 9369359, 9353944, 9338587, 9323288, 9308047, 9292864, 9277737, 9262667, 9247653, 9232695, 9217793, 9202945, 9188152, 9173413, 9158728, 9144097, 9129518, 9114993, 9100519, 9086098, 9071729, 9057411, 9043144, 9028927, 9014762, 9000646, 8986579, 8972562, 8958595, 8944675, 8930805, 8916982, 8903207, 8889480, 8875800, 8862166, 8848580, 8835039, 8821545, 8808096, 8794693, 8781335, 8768021, 8754752, 8741528, 8728348, 8715211, 8702118, 8689068, 8676061, 8663097, 8650175, 8637295, 8624458, 8611662, 8598907, 8586194, 8573521, 8560890, 8548299, 8535748, 8523237, 8510766, 8498334, 8485942, 8473588, 8461274, 8448998, 8436761, 8424562, 8412401, 8400277, 8388191, 8376143, 8364131, 8352157, 8340219, 8328318, 8316453, 8304624, 8292831, 8281074, 8269352, 8257666, 8246015, 8234398, 8222817, 8211270, 8199757, 8188279, 8176834, 8165424, 8154047, 8142703, 8131393, 8120116, 8108872, 8097661, 8086482, 8075335, 8064221, 8053139, 8042089, 8031071, 8020084, 8009129, 7998205, 7987312, 7976450, 7965619, 7954818, 7944048, 7933309, 7922599, 7911920, 7901270, 7890650, 7880060, 7869499, 7858967, 7848465, 7837991, 7827547, 7817131, 7806743, 7796384, 7786054, 7775751, 7765477, 7755230, 7745012, 7734820, 7724657, 7714520, 7704411, 7694329, 7684274, 7674246, 7664245, 7654270, 7644321, 7634399, 7624503, 7614634, 7604790, 7594972, 7585180, 7575413, 7565672, 7555956, 7546266, 7536600, 7526960, 7517345, 7507754>>, <<20000000, 19125278, 18774259, 18509287, 18288813, 18096748, 17924845, 17768206, 17623640, 17488931, 17362469, 17243035, 17129685, 17021668, 16918374, 16819303, 16724034, 16632213, 16543539, 16457748, 16374615, 16293940, 16215547, 16139282, 16065004, 15992590, 15921927, 15852913, 15785457, 15719475, 15654890, 15591631, 15529634, 15468839, 15409191, 15350640, 15293136, 15236637, 15181101, 15126489, 15072766, 15019898, 14967853, 14916600, 14866113, 14816364, 14767329, 14718984, 14671306, 14624274, 14577868, 14532069, 14486859, 14442220, 14398136, 14354591, 14311569, 14269058, 14227042, 14185510, 14144447, 14103843, 14063685, 14023963, 13984665, 13945783, 13907305, 13869222, 13831526, 13794208, 13757258, 13720669, 13684434, 13648543, 13612991, 13577771, 13542874, 13508295, 13474027, 13440065, 13406401, 13373031, 13339948, 13307148, 13274624, 13242372, 13210387, 13178665, 13147199, 13115986, 13085022, 13054301, 13023821, 12993576, 12963563, 12933779, 12904218, 12874878, 12845755, 12816846, 12788146, 12759654, 12731366, 12703278, 12675387, 12647691, 12620187, 12592872, 12565743, 12538797, 12512031, 12485444, 12459033, 12432795, 12406727, 12380828, 12355095, 12329525, 12304117, 12278869, 12253778, 12228843, 12204060, 12179429, 12154948, 12130613, 12106424, 12082379, 12058476, 12034714, 12011089, 11987602, 11964249, 11941030, 11917943, 11894987, 11872159, 11849459, 11826884, 11804434, 11782107, 11759901, 11737816, 11715850, 11694001, 11672268, 11650651, 11629147, 11607756, 11586475, 11565306, 11544245, 11523291, 11502445, 11481704, 11461067, 11440534, 11420103, 11399774, 11379544, 11359414, 11339382, 11319448, 11299610, 11279867, 11260218, 11240663, 11221201, 11201831, 11182551, 11163361, 11144261, 11125248, 11106323, 11087485, 11068733, 11050066, 11031483, 11012984, 10994567, 10976233, 10957980, 10939807, 10921714, 10903701, 10885766, 10867908, 10850128, 10832424, 10814796, 10797244, 10779765, 10762361, 10745030, 10727771, 10710585, 10693470, 10676425, 10659452, 10642547, 10625712, 10608946, 10592247, 10575616, 10559052, 10542554, 10526122, 10509756, 10493454, 10477217, 10461043, 10444933, 10428886, 10412901, 10396978, 10381116, 10365316, 10349576, 10333895, 10318275, 10302714, 10287211, 10271767, 10256380, 10241051, 10225779, 10210563, 10195404, 10180301, 10165253, 10150260, 10135321, 10120437, 10105606, 10090829, 10076105, 10061434, 10046815, 10032248, 10017733, 10003269, 9988856, 9974494, 9960181, 9945919, 9931706, 9917542, 9903428, 9889362, 9875344, 9861374, 9847451, 9833576, 9819748, 9805967, 9792232, 9778543, 9764900, 9751303, 9737750, 9724243, 9710780, 9697361, 9683987, 9670656, 9657369, 9644125, 9630925, 9617766, 9604651, 9591577, 9578546, 9565556, 9552607, 9539700, 9526834, 9514008, 9501223, 9488478, 9475773, 9463107, 9450481, 9437895, 9425347, 9412838, 9400368, 9387936, 9375542, 9363186, 9350868, 9338587, 9326343, 9314137, 9301967, 9289834, 9277737, 9265677, 9253652, 9241664, 9229710, 9217793, 9205910, 9194063, 9182250, 9170472, 9158728, 9147019, 9135343, 9123702, 9112094, 9100519, 9088978, 9077470, 9065995, 9054553, 9043144, 9031767, 9020422, 9009109, 8997828, 8986579, 8975362, 8964176, 8953021, 8941897, 8930805, 8919743, 8908711, 8897711, 8886740, 8875800, 8864889, 8854009, 8843158, 8832337, 8821545, 8810782, 8800049, 8789344, 8778668, 8768021, 8757403, 8746813, 8736251, 8725717, 8715211, 8704733, 8694283, 8683860, 8673465, 8663097, 8652756, 8642442, 8632155, 8621895, 8611662, 8601455, 8591274, 8581120, 8570992, 8560890, 8550814, 8540763, 8530739, 8520739, 8510766, 8500817, 8490894, 8480996, 8471122, 8461274, 8451450, 8441651, 8431877, 8422126, 8412401, 8402699, 8393021, 8383367, 8373737, 8364131, 8354549, 8344990, 8335454, 8325942>>, <<20000000, 19199946, 18878000, 18634628, 18431896, 18255113, 18096748, 17952330, 17818945, 17694570, 17577731, 17467319, 17362469, 17262496, 17166842, 17075051, 16986739, 16901581, 16819303, 16739664, 16662457, 16587500, 16514633, 16443714, 16374615, 16307223, 16241435, 16177158, 16114308, 16052809, 15992590, 15933587, 15875740, 15818996, 15763303, 15708616, 15654890, 15602085, 15550163, 15499090, 15448832, 15399358, 15350640, 15302649, 15255361, 15208751, 15162796, 15117475, 15072766, 15028651, 14985111, 14942129, 14899688, 14857771, 14816364, 14775453, 14735024, 14695063, 14655558, 14616497, 14577868, 14539661, 14501865, 14464469, 14427464, 14390841, 14354591, 14318704, 14283173, 14247989, 14213145, 14178634, 14144447, 14110579, 14077022, 14043770, 14010817, 13978156, 13945783, 13913690, 13881873, 13850327, 13819045, 13788024, 13757258, 13726743, 13696473, 13666446, 13636656, 13607099, 13577771, 13548668, 13519786, 13491123, 13462673, 13434433, 13406401, 13378572, 13350944, 13323513, 13296276, 13269230, 13242372, 13215700, 13189210, 13162900, 13136767, 13110808, 13085022, 13059405, 13033955, 13008669, 12983546, 12958584, 12933779, 12909129, 12884634, 12860290, 12836095, 12812048, 12788146, 12764389, 12740773, 12717297, 12693959, 12670758, 12647691, 12624758, 12601956, 12579284, 12556740, 12534323, 12512031, 12489863, 12467817, 12445892, 12424086, 12402399, 12380828, 12359372, 12338030, 12316801, 12295684, 12274677, 12253778, 12232988, 12212304, 12191726, 12171252, 12150882, 12130613, 12110446, 12090379, 12070410, 12050540, 12030767, 12011089, 11991507, 11972018, 11952623, 11933320, 11914108, 11894987, 11875955, 11857011, 11838156, 11819387, 11800704, 11782107, 11763594, 11745165, 11726818, 11708554, 11690371, 11672268, 11654246, 11636302, 11618437, 11600650, 11582940, 11565306, 11547747, 11530264, 11512855, 11495519, 11478257, 11461067, 11443949, 11426902, 11409926, 11393019, 11376182, 11359414, 11342714, 11326082, 11309517, 11293018, 11276585, 11260218, 11243916, 11227678, 11211504, 11195394, 11179346, 11163361, 11147438, 11131576, 11115775, 11100034, 11084354, 11068733, 11053171, 11037668, 11022223, 11006836, 10991506, 10976233, 10961016, 10945856, 10930751, 10915701, 10900706, 10885766, 10870879, 10856046, 10841267, 10826540, 10811866, 10797244, 10782673, 10768154, 10753686, 10739269, 10724902, 10710585, 10696317, 10682099, 10667930, 10653809, 10639737, 10625712, 10611735, 10597806, 10583923, 10570087, 10556298, 10542554, 10528856, 10515204, 10501597, 10488035, 10474517, 10461043, 10447614, 10434228, 10420886, 10407586, 10394330, 10381116, 10367945, 10354816, 10341728, 10328682, 10315677, 10302714, 10289791, 10276908, 10264066, 10251264, 10238502, 10225779, 10213095, 10200451, 10187846, 10175279, 10162750, 10150260, 10137807, 10125392, 10113015, 10100675, 10088372, 10076105, 10063876, 10051682, 10039525, 10027404, 10015319, 10003269, 9991255, 9979275, 9967331, 9955422, 9943547, 9931706, 9919900, 9908127, 9896389, 9884684, 9873012, 9861374, 9849769, 9838196, 9826657, 9815149, 9803675, 9792232, 9780822, 9769443, 9758096, 9746780, 9735496, 9724243, 9713021, 9701829, 9690669, 9679539, 9668439, 9657369, 9646330, 9635320, 9624340, 9613390, 9602469, 9591577, 9580715, 9569881, 9559076, 9548300, 9537553, 9526834, 9516143, 9505480, 9494845, 9484238, 9473659, 9463107, 9452583, 9442086, 9431616, 9421173, 9410757, 9400368, 9390005, 9379669, 9369359, 9359076, 9348818, 9338587, 9328382, 9318202, 9308047, 9297919, 9287815, 9277737, 9267684, 9257657, 9247653, 9237675, 9227722, 9217793, 9207888, 9198008, 9188152, 9178320, 9168512, 9158728, 9148968, 9139231, 9129518, 9119829, 9110162, 9100519, 9090900, 9081303, 9071729, 9062178, 9052649, 9043144, 9033661, 9024200, 9014762, 9005345, 8995951, 8986579>>>>
AckR(n, k) == T_AckR[n - (0)][k - (-1)]
T_AckE == <<<<0, 0, 0, 0, 0, 367879, 1000000, 2718282, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 367879, 606531, 1000000, 1648721, 2718282, 0, 0, 0, 0>>, <<0, 0, 0, 367879, 513417, 716531, 1000000, 1395612, 1947734, 2718282, 0, 0, 0>>, <<0, 0, 367879, 472367, 606531, 778801, 1000000, 1284025, 1648721, 2117000, 2718282, 0, 0>>, <<0, 367879, 449329, 548812, 670320, 818731, 1000000, 1221403, 1491825, 1822119, 2225541, 2718282, 0>>, <<367879, 434598, 513417, 606531, 716531, 846482, 1000000, 1181360, 1395612, 1648721, 1947734, 2300976, 2718282>>>>
AckE(n, m) == T_AckE[n - (0)][m - (-7)]
T_BraA == <<-17187, -14433, -11937, -9700, -7721, -6000, -4538, -3334, -2388, -1701, -1272, -1101, -1189, -1535, -2140, -3003>>
BraA(u) == T_BraA[u - (-6)]
T_BraC == <<12724, 3724, 494, 6004, 15188, 19602, 15188, 6004, 494, 3724, 12724, 19220, 17239, 8603, 1251, 1943>>
BraC(u) == T_BraC[u - (-6)]
T_ExpX == <<<<1, 12, 44, 129, 362, 994, 2712, 7383, 20080>>, <<0, 0, 2, 18, 135, 1000, 7389, 54598, 403429>>, <<0, 0, 0, 2, 50, 1000, 20086, 403429, 8103084>>, <<0, 0, 0, 0, 18, 1000, 54598, 2980958, 162754791>>, <<0, 0, 0, 0, 7, 1000, 148413, 22026466, 0>>, <<0, 0, 0, 0, 2, 1000, 403429, 162754791, 0>>, <<0, 0, 0, 0, 1, 1000, 1096633, 0, 0>>, <<0, 0, 0, 0, 0, 1000, 2980958, 0, 0>>, <<0, 0, 0, 0, 0, 1000, 8103084, 0, 0>>, <<0, 0, 0, 0, 0, 1000, 22026466, 0, 0>>, <<0, 0, 0, 0, 0, 1000, 59874142, 0, 0>>, <<0, 0, 0, 0, 0, 1000, 162754791, 0, 0>>, <<0, 0, 0, 0, 0, 1000, 0, 0, 0>>, <<0, 0, 0, 0, 0, 1000, 0, 0, 0>>, <<0, 0, 0, 0, 0, 1000, 0, 0, 0>>, <<0, 0, 0, 0, 0, 1000, 0, 0, 0>>, <<0, 0, 0, 0, 0, 1000, 0, 0, 0>>, <<0, 0, 0, 0, 0, 1000, 0, 0, 0>>, <<0, 0, 0, 0, 0, 1000, 0, 0, 0>>, <<0, 0, 0, 0, 0, 1000, 0, 0, 0>>>>
ExpX(j, u) == T_ExpX[j - (0)][u - (-6)]
T_GriC == <<<<4242, -5477, 6603, -7597, 8439, -9111, 9602, -9900, 10000, -9900, 9602, -9111, 8439, -7597, 6603, -5477, 4242>>, <<-3033, -6534, 9870, -3792, -5902, 9967, -4527, -5231, 10000, -5231, -4527, 9967, -5902, -3792, 9870, -6534, -3033>>, <<2771, 9039, -5673, -7217, 7991, 4651, -9484, -1606, 10000, -1606, -9484, 4651, 7991, -7217, -5673, 9039, 2771>>, <<8439, -4755, -9111, 3466, 9602, -2108, -9900, 707, 10000, 707, -9900, -2108, 9602, 3466, -9111, -4755, 8439>>, <<-2594, -9994, -1946, 9110, 6085, -6346, -8968, 2272, 10000, 2272, -8968, -6346, 6085, 9110, -1946, -9994, -2594>>, <<-9312, -6588, 4843, 9873, 1855, -8615, -7699, 3392, 10000, 3392, -7699, -8615, 1855, 9873, 4843, -6588, -9312>>, <<-9381, -832, 8677, 8175, -1759, -9664, -6419, 4231, 10000, 4231, -6419, -9664, -1759, 8175, 8677, -832, -9381>>, <<-5902, 4163, 9967, 5571, -4527, -9992, -5231, 4883, 10000, 4883, -5231, -9992, -4527, 5571, 9967, 4163, -5902>>, <<-1455, 7539, 9602, 2837, -6536, -9900, -4161, 5403, 10000, 5403, -4161, -9900, -6536, 2837, 9602, 7539, -1455>>, <<2614, 9367, 8303, 310, -7942, -9566, -3208, 5828, 10000, 5828, -3208, -9566, -7942, 310, 8303, 9367, 2614>>, <<5792, 9988, 6555, -1886, -8886, -9098, -2360, 6181, 10000, 6181, -2360, -9098, -8886, -1886, 6555, 9988, 5792>>, <<7991, 9757, 4651, -3730, -9484, -8559, -1606, 6479, 10000, 6479, -1606, -8559, -9484, -3730, 4651, 9757, 7991>>, <<9312, 8966, 2763, -5245, -9826, -7988, -932, 6734, 10000, 6734, -932, -7988, -9826, -5245, 2763, 8966, 9312>>, <<9914, 7834, 982, -6469, -9979, -7410, -328, 6954, 10000, 6954, -328, -7410, -9979, -6469, 982, 7834, 9914>>, <<9963, 6517, -648, -7442, -9991, -6838, 216, 7147, 10000, 7147, 216, -6838, -9991, -7442, -648, 6517, 9963>>, <<9602, 5121, -2108, -8206, -9900, -6282, 707, 7317, 10000, 7317, 707, -6282, -9900, -8206, -2108, 5121, 9602>>, <<8950, 3717, -3398, -8793, -9734, -5745, 1153, 7468, 10000, 7468, 1153, -5745, -9734, -8793, -3398, 3717, 8950>>, <<8102, 2351, -4527, -9234, -9514, -5231, 1559, 7602, 10000, 7602, 1559, -5231, -9514, -9234, -4527, 2351, 8102>>, <<7129, 1051, -5505, -9554, -9254, -4741, 1931, 7724, 10000, 7724, 1931, -4741, -9254, -9554, -5505, 1051, 7129>>, <<6085, -166, -6346, -9775, -8968, -4274, 2272, 7833, 10000, 7833, 2272, -4274, -8968, -9775, -6346, -166, 6085>>>>
GriC(i, u) == T_GriC[i - (0)][u - (-9)]
T_LevS == <<708073, 954649, 291927, 45351>>
LevS(k) == T_LevS[k - (-1)]
T_MicM == <<<<0, 0, 0, 0, 977, 276967, 479693, 133, 0>>, <<0, 0, 0, 5362, 1000000, 103, 0, 347467, 0>>, <<0, 0, 6, 502724, 977, 2, 17637, 4780, 0>>, <<0, 0, 691, 626750, 0, 626750, 691, 0, 0>>, <<0, 0, 17637, 11539, 977, 0, 6, 1, 0>>, <<0, 0, 145142, 0, 1000000, 74853, 145142, 158685, 0>>, <<0, 0, 479693, 0, 977, 2298, 0, 50828, 0>>, <<0, 0, 707107, 0, 0, 0, 707107, 0, 0>>, <<0, 0, 479693, 2298, 977, 901875, 0, 0, 0>>, <<0, 0, 145142, 383100, 1000000, 0, 145142, 31005, 0>>, <<0, 1, 17637, 743175, 977, 11539, 6, 208235, 0>>, <<0, 3, 691, 23043, 0, 23043, 691, 3, 0>>, <<0, 12, 6, 2, 977, 0, 17637, 0, 0>>, <<0, 43, 0, 0, 1000000, 838860, 0, 2221, 0>>, <<0, 133, 0, 0, 977, 0, 479693, 373569, 0>>, <<0, 374, 0, 902, 0, 902, 0, 374, 0>>, <<0, 952, 0, 276967, 977, 122710, 479693, 0, 0>>, <<0, 2221, 0, 838860, 1000000, 0, 0, 43, 0>>, <<0, 4780, 6, 42915, 977, 502724, 17637, 307833, 0>>, <<0, 9545, 691, 7, 0, 7, 691, 9545, 0>>>>
MicM(i, u) == T_MicM[i - (0)][u - (-1)]
T_SchW == <<3042295, -394337, -3291194, -4158774, -2607254, 308985, 2623269, 2744300, 737032, -1512610, -1844822, -132233, 1215770, 349996, -633189, 187576, 0, -187576, 633189, -349996, -1215770, 132233, 1844822, 1512610, -737032, -2744300, -2623269, -308985, 2607254, 4158774, 3291194, 394337, -3042295>>
SchW(u) == T_SchW[u - (-17)]
T_Har3 == <<<<<<6648, 8366, 9585, 9999, 9497, 8214, 6468, 4637, 3027>>, <<8721, 9994, 8379, 5139, 2306, 757, 182, 32, 4>>, <<1172, 5447, 9911, 7061, 1970, 215, 9, 0, 0>>>>, <<<<9782, 9882, 9952, 9991, 9999, 9976, 9922, 9837, 9723>>, <<1459, 3738, 7004, 9602, 9631, 7068, 3794, 1490, 428>>, <<0, 0, 2, 79, 1182, 5940, 9997, 5636, 1064>>>>, <<<<9649, 9992, 9422, 8089, 6323, 4500, 2916, 1721, 924>>, <<5, 37, 206, 836, 2484, 5401, 8592, 10000, 8515>>, <<1, 39, 617, 3796, 9141, 8622, 3185, 461, 26>>>>, <<<<9999, 9992, 9955, 9887, 9789, 9661, 9506, 9324, 9116>>, <<369, 1328, 3493, 6722, 9463, 9746, 7344, 4049, 1633>>, <<0, 0, 0, 1, 59, 977, 5394, 9979, 6183>>>>>>
Har3(i, j, u) == T_Har3[i - (0)][j - (0)][u - (-1)]
T_Har6 == <<<<<<8419, 9996, 8684, 5519, 2566, 873, 217, 40, 5>>, <<9173, 9941, 9808, 8811, 7207, 5368, 3640, 2247, 1264>>, <<51, 420, 2017, 5698, 9464, 9242, 5305, 1790, 355>>, <<9995, 9566, 8207, 6312, 4351, 2689, 1489, 740, 329>>, <<3115, 4313, 5664, 7052, 8326, 9321, 9896, 9963, 9511>>, <<626, 1792, 3996, 6942, 9391, 9895, 8119, 5188, 2582>>>>, <<<<9973, 9994, 10000, 9990, 9964, 9923, 9867, 9796, 9710>>, <<1809, 4350, 7654, 9853, 9279, 6393, 3223, 1189, 321>>, <<0, 2, 32, 293, 1558, 4871, 8952, 9672, 6143>>, <<9861, 9938, 9985, 10000, 9984, 9937, 9859, 9752, 9615>>, <<9225, 9952, 8361, 5470, 2787, 1106, 342, 82, 15>>, <<0, 0, 4, 43, 306, 1410, 4195, 8060, 10000>>>>, <<<<8476, 9645, 9993, 9427, 8098, 6333, 4510, 2924, 1726>>, <<9290, 9986, 9622, 8311, 6435, 4466, 2779, 1550, 775>>, <<8099, 9160, 9824, 9991, 9635, 8812, 7641, 6284, 4900>>, <<4355, 7659, 9854, 9276, 6388, 3219, 1186, 320, 63>>, <<2063, 5775, 9504, 9194, 5229, 1748, 344, 40, 3>>, <<291, 970, 2521, 5103, 8043, 9873, 9438, 7027, 4075>>>>, <<<<618, 2645, 6657, 9851, 8569, 4382, 1317, 233, 24>>, <<20, 101, 406, 1271, 3097, 5876, 8684, 9995, 8959>>, <<9626, 9724, 9808, 9877, 9931, 9969, 9992, 10000, 9992>>, <<369, 1328, 3493, 6722, 9463, 9746, 7344, 4049, 1633>>, <<9988, 10000, 9980, 9930, 9848, 9737, 9598, 9430, 9237>>, <<9799, 8997, 5333, 2041, 504, 80, 8, 1, 0>>>>>>
Har6(i, j, u) == T_Har6[i - (0)][j - (0)][u - (-1)]
=============================================================================
