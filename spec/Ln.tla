---------------------------------- MODULE Ln ----------------------------------
(* LnTab[n] = round(10^4 * ln(n)), n = 1..4096 (generated by lib/mkln.py) *)
LnTab == <<
  0, 6931, 10986, 13863, 16094, 17918, 19459, 20794, 21972, 23026, 23979, 24849, 25649, 26391, 27081, 27726,
  28332, 28904, 29444, 29957, 30445, 30910, 31355, 31781, 32189, 32581, 32958, 33322, 33673, 34012, 34340, 34657,
  34965, 35264, 35553, 35835, 36109, 36376, 36636, 36889, 37136, 37377, 37612, 37842, 38067, 38286, 38501, 38712,
  38918, 39120, 39318, 39512, 39703, 39890, 40073, 40254, 40431, 40604, 40775, 40943, 41109, 41271, 41431, 41589,
  41744, 41897, 42047, 42195, 42341, 42485, 42627, 42767, 42905, 43041, 43175, 43307, 43438, 43567, 43694, 43820,
  43944, 44067, 44188, 44308, 44427, 44543, 44659, 44773, 44886, 44998, 45109, 45218, 45326, 45433, 45539, 45643,
  45747, 45850, 45951, 46052, 46151, 46250, 46347, 46444, 46540, 46634, 46728, 46821, 46913, 47005, 47095, 47185,
  47274, 47362, 47449, 47536, 47622, 47707, 47791, 47875, 47958, 48040, 48122, 48203, 48283, 48363, 48442, 48520,
  48598, 48675, 48752, 48828, 48903, 48978, 49053, 49127, 49200, 49273, 49345, 49416, 49488, 49558, 49628, 49698,
  49767, 49836, 49904, 49972, 50039, 50106, 50173, 50239, 50304, 50370, 50434, 50499, 50562, 50626, 50689, 50752,
  50814, 50876, 50938, 50999, 51059, 51120, 51180, 51240, 51299, 51358, 51417, 51475, 51533, 51591, 51648, 51705,
  51761, 51818, 51874, 51930, 51985, 52040, 52095, 52149, 52204, 52257, 52311, 52364, 52417, 52470, 52523, 52575,
  52627, 52679, 52730, 52781, 52832, 52883, 52933, 52983, 53033, 53083, 53132, 53181, 53230, 53279, 53327, 53375,
  53423, 53471, 53519, 53566, 53613, 53660, 53706, 53753, 53799, 53845, 53891, 53936, 53982, 54027, 54072, 54116,
  54161, 54205, 54250, 54293, 54337, 54381, 54424, 54467, 54510, 54553, 54596, 54638, 54681, 54723, 54765, 54806,
  54848, 54889, 54931, 54972, 55013, 55053, 55094, 55134, 55175, 55215, 55255, 55294, 55334, 55373, 55413, 55452,
  55491, 55530, 55568, 55607, 55645, 55683, 55722, 55759, 55797, 55835, 55872, 55910, 55947, 55984, 56021, 56058,
  56095, 56131, 56168, 56204, 56240, 56276, 56312, 56348, 56384, 56419, 56454, 56490, 56525, 56560, 56595, 56630,
  56664, 56699, 56733, 56768, 56802, 56836, 56870, 56904, 56937, 56971, 57004, 57038, 57071, 57104, 57137, 57170,
  57203, 57236, 57268, 57301, 57333, 57366, 57398, 57430, 57462, 57494, 57526, 57557, 57589, 57621, 57652, 57683,
  57714, 57746, 57777, 57807, 57838, 57869, 57900, 57930, 57961, 57991, 58021, 58051, 58081, 58111, 58141, 58171,
  58201, 58230, 58260, 58289, 58319, 58348, 58377, 58406, 58435, 58464, 58493, 58522, 58551, 58579, 58608, 58636,
  58665, 58693, 58721, 58749, 58777, 58805, 58833, 58861, 58889, 58916, 58944, 58972, 58999, 59026, 59054, 59081,
  59108, 59135, 59162, 59189, 59216, 59243, 59269, 59296, 59322, 59349, 59375, 59402, 59428, 59454, 59480, 59506,
  59532, 59558, 59584, 59610, 59636, 59661, 59687, 59713, 59738, 59764, 59789, 59814, 59839, 59865, 59890, 59915,
  59940, 59965, 59989, 60014, 60039, 60064, 60088, 60113, 60137, 60162, 60186, 60210, 60234, 60259, 60283, 60307,
  60331, 60355, 60379, 60403, 60426, 60450, 60474, 60497, 60521, 60544, 60568, 60591, 60615, 60638, 60661, 60684,
  60707, 60730, 60753, 60776, 60799, 60822, 60845, 60868, 60890, 60913, 60936, 60958, 60981, 61003, 61026, 61048,
  61070, 61092, 61115, 61137, 61159, 61181, 61203, 61225, 61247, 61269, 61291, 61312, 61334, 61356, 61377, 61399,
  61420, 61442, 61463, 61485, 61506, 61527, 61549, 61570, 61591, 61612, 61633, 61654, 61675, 61696, 61717, 61738,
  61759, 61779, 61800, 61821, 61841, 61862, 61883, 61903, 61924, 61944, 61964, 61985, 62005, 62025, 62046, 62066,
  62086, 62106, 62126, 62146, 62166, 62186, 62206, 62226, 62246, 62265, 62285, 62305, 62324, 62344, 62364, 62383,
  62403, 62422, 62442, 62461, 62480, 62500, 62519, 62538, 62558, 62577, 62596, 62615, 62634, 62653, 62672, 62691,
  62710, 62729, 62748, 62766, 62785, 62804, 62823, 62841, 62860, 62879, 62897, 62916, 62934, 62953, 62971, 62989,
  63008, 63026, 63044, 63063, 63081, 63099, 63117, 63135, 63154, 63172, 63190, 63208, 63226, 63244, 63261, 63279,
  63297, 63315, 63333, 63351, 63368, 63386, 63404, 63421, 63439, 63456, 63474, 63491, 63509, 63526, 63544, 63561,
  63578, 63596, 63613, 63630, 63648, 63665, 63682, 63699, 63716, 63733, 63750, 63767, 63784, 63801, 63818, 63835,
  63852, 63869, 63886, 63902, 63919, 63936, 63953, 63969, 63986, 64003, 64019, 64036, 64052, 64069, 64085, 64102,
  64118, 64135, 64151, 64167, 64184, 64200, 64216, 64232, 64249, 64265, 64281, 64297, 64313, 64329, 64345, 64362,
  64378, 64394, 64409, 64425, 64441, 64457, 64473, 64489, 64505, 64520, 64536, 64552, 64568, 64583, 64599, 64615,
  64630, 64646, 64661, 64677, 64693, 64708, 64723, 64739, 64754, 64770, 64785, 64800, 64816, 64831, 64846, 64862,
  64877, 64892, 64907, 64922, 64938, 64953, 64968, 64983, 64998, 65013, 65028, 65043, 65058, 65073, 65088, 65103,
  65117, 65132, 65147, 65162, 65177, 65191, 65206, 65221, 65236, 65250, 65265, 65280, 65294, 65309, 65323, 65338,
  65352, 65367, 65381, 65396, 65410, 65425, 65439, 65453, 65468, 65482, 65497, 65511, 65525, 65539, 65554, 65568,
  65582, 65596, 65610, 65624, 65639, 65653, 65667, 65681, 65695, 65709, 65723, 65737, 65751, 65765, 65779, 65793,
  65806, 65820, 65834, 65848, 65862, 65876, 65889, 65903, 65917, 65930, 65944, 65958, 65971, 65985, 65999, 66012,
  66026, 66039, 66053, 66067, 66080, 66093, 66107, 66120, 66134, 66147, 66161, 66174, 66187, 66201, 66214, 66227,
  66241, 66254, 66267, 66280, 66294, 66307, 66320, 66333, 66346, 66359, 66373, 66386, 66399, 66412, 66425, 66438,
  66451, 66464, 66477, 66490, 66503, 66516, 66529, 66542, 66554, 66567, 66580, 66593, 66606, 66619, 66631, 66644,
  66657, 66670, 66682, 66695, 66708, 66720, 66733, 66746, 66758, 66771, 66783, 66796, 66809, 66821, 66834, 66846,
  66859, 66871, 66884, 66896, 66908, 66921, 66933, 66946, 66958, 66970, 66983, 66995, 67007, 67020, 67032, 67044,
  67056, 67069, 67081, 67093, 67105, 67117, 67130, 67142, 67154, 67166, 67178, 67190, 67202, 67214, 67226, 67238,
  67250, 67262, 67274, 67286, 67298, 67310, 67322, 67334, 67346, 67358, 67370, 67382, 67393, 67405, 67417, 67429,
  67441, 67452, 67464, 67476, 67488, 67499, 67511, 67523, 67534, 67546, 67558, 67569, 67581, 67593, 67604, 67616,
  67627, 67639, 67650, 67662, 67673, 67685, 67696, 67708, 67719, 67731, 67742, 67754, 67765, 67776, 67788, 67799,
  67811, 67822, 67833, 67845, 67856, 67867, 67878, 67890, 67901, 67912, 67923, 67935, 67946, 67957, 67968, 67979,
  67991, 68002, 68013, 68024, 68035, 68046, 68057, 68068, 68079, 68090, 68101, 68112, 68123, 68134, 68145, 68156,
  68167, 68178, 68189, 68200, 68211, 68222, 68233, 68244, 68255, 68265, 68276, 68287, 68298, 68309, 68320, 68330,
  68341, 68352, 68363, 68373, 68384, 68395, 68405, 68416, 68427, 68437, 68448, 68459, 68469, 68480, 68491, 68501,
  68512, 68522, 68533, 68544, 68554, 68565, 68575, 68586, 68596, 68607, 68617, 68628, 68638, 68648, 68659, 68669,
  68680, 68690, 68701, 68711, 68721, 68732, 68742, 68752, 68763, 68773, 68783, 68794, 68804, 68814, 68824, 68835,
  68845, 68855, 68865, 68876, 68886, 68896, 68906, 68916, 68926, 68937, 68947, 68957, 68967, 68977, 68987, 68997,
  69007, 69017, 69027, 69037, 69048, 69058, 69068, 69078, 69088, 69098, 69108, 69117, 69127, 69137, 69147, 69157,
  69167, 69177, 69187, 69197, 69207, 69217, 69226, 69236, 69246, 69256, 69266, 69276, 69285, 69295, 69305, 69315,
  69324, 69334, 69344, 69354, 69363, 69373, 69383, 69393, 69402, 69412, 69422, 69431, 69441, 69451, 69460, 69470,
  69479, 69489, 69499, 69508, 69518, 69527, 69537, 69546, 69556, 69565, 69575, 69584, 69594, 69603, 69613, 69622,
  69632, 69641, 69651, 69660, 69670, 69679, 69689, 69698, 69707, 69717, 69726, 69735, 69745, 69754, 69763, 69773,
  69782, 69791, 69801, 69810, 69819, 69829, 69838, 69847, 69856, 69866, 69875, 69884, 69893, 69903, 69912, 69921,
  69930, 69939, 69948, 69958, 69967, 69976, 69985, 69994, 70003, 70012, 70022, 70031, 70040, 70049, 70058, 70067,
  70076, 70085, 70094, 70103, 70112, 70121, 70130, 70139, 70148, 70157, 70166, 70175, 70184, 70193, 70202, 70211,
  70220, 70229, 70238, 70246, 70255, 70264, 70273, 70282, 70291, 70300, 70309, 70317, 70326, 70335, 70344, 70353,
  70361, 70370, 70379, 70388, 70397, 70405, 70414, 70423, 70432, 70440, 70449, 70458, 70466, 70475, 70484, 70493,
  70501, 70510, 70519, 70527, 70536, 70544, 70553, 70562, 70570, 70579, 70588, 70596, 70605, 70613, 70622, 70630,
  70639, 70648, 70656, 70665, 70673, 70682, 70690, 70699, 70707, 70716, 70724, 70733, 70741, 70750, 70758, 70767,
  70775, 70783, 70792, 70800, 70809, 70817, 70825, 70834, 70842, 70851, 70859, 70867, 70876, 70884, 70892, 70901,
  70909, 70917, 70926, 70934, 70942, 70951, 70959, 70967, 70975, 70984, 70992, 71000, 71009, 71017, 71025, 71033,
  71041, 71050, 71058, 71066, 71074, 71082, 71091, 71099, 71107, 71115, 71123, 71131, 71140, 71148, 71156, 71164,
  71172, 71180, 71188, 71196, 71204, 71213, 71221, 71229, 71237, 71245, 71253, 71261, 71269, 71277, 71285, 71293,
  71301, 71309, 71317, 71325, 71333, 71341, 71349, 71357, 71365, 71373, 71381, 71389, 71397, 71405, 71412, 71420,
  71428, 71436, 71444, 71452, 71460, 71468, 71476, 71483, 71491, 71499, 71507, 71515, 71523, 71531, 71538, 71546,
  71554, 71562, 71570, 71577, 71585, 71593, 71601, 71608, 71616, 71624, 71632, 71639, 71647, 71655, 71663, 71670,
  71678, 71686, 71694, 71701, 71709, 71717, 71724, 71732, 71740, 71747, 71755, 71763, 71770, 71778, 71785, 71793,
  71801, 71808, 71816, 71824, 71831, 71839, 71846, 71854, 71861, 71869, 71877, 71884, 71892, 71899, 71907, 71914,
  71922, 71929, 71937, 71944, 71952, 71959, 71967, 71974, 71982, 71989, 71997, 72004, 72012, 72019, 72027, 72034,
  72041, 72049, 72056, 72064, 72071, 72079, 72086, 72093, 72101, 72108, 72116, 72123, 72130, 72138, 72145, 72152,
  72160, 72167, 72174, 72182, 72189, 72196, 72204, 72211, 72218, 72226, 72233, 72240, 72248, 72255, 72262, 72269,
  72277, 72284, 72291, 72298, 72306, 72313, 72320, 72327, 72335, 72342, 72349, 72356, 72363, 72371, 72378, 72385,
  72392, 72399, 72406, 72414, 72421, 72428, 72435, 72442, 72449, 72457, 72464, 72471, 72478, 72485, 72492, 72499,
  72506, 72513, 72521, 72528, 72535, 72542, 72549, 72556, 72563, 72570, 72577, 72584, 72591, 72598, 72605, 72612,
  72619, 72626, 72633, 72640, 72647, 72654, 72661, 72668, 72675, 72682, 72689, 72696, 72703, 72710, 72717, 72724,
  72731, 72738, 72745, 72752, 72759, 72766, 72772, 72779, 72786, 72793, 72800, 72807, 72814, 72821, 72828, 72834,
  72841, 72848, 72855, 72862, 72869, 72876, 72882, 72889, 72896, 72903, 72910, 72917, 72923, 72930, 72937, 72944,
  72951, 72957, 72964, 72971, 72978, 72984, 72991, 72998, 73005, 73011, 73018, 73025, 73032, 73038, 73045, 73052,
  73059, 73065, 73072, 73079, 73085, 73092, 73099, 73106, 73112, 73119, 73126, 73132, 73139, 73146, 73152, 73159,
  73165, 73172, 73179, 73185, 73192, 73199, 73205, 73212, 73218, 73225, 73232, 73238, 73245, 73251, 73258, 73265,
  73271, 73278, 73284, 73291, 73297, 73304, 73311, 73317, 73324, 73330, 73337, 73343, 73350, 73356, 73363, 73369,
  73376, 73382, 73389, 73395, 73402, 73408, 73415, 73421, 73428, 73434, 73441, 73447, 73454, 73460, 73467, 73473,
  73479, 73486, 73492, 73499, 73505, 73512, 73518, 73524, 73531, 73537, 73544, 73550, 73556, 73563, 73569, 73576,
  73582, 73588, 73595, 73601, 73607, 73614, 73620, 73626, 73633, 73639, 73645, 73652, 73658, 73664, 73671, 73677,
  73683, 73690, 73696, 73702, 73709, 73715, 73721, 73727, 73734, 73740, 73746, 73753, 73759, 73765, 73771, 73778,
  73784, 73790, 73796, 73803, 73809, 73815, 73821, 73827, 73834, 73840, 73846, 73852, 73859, 73865, 73871, 73877,
  73883, 73889, 73896, 73902, 73908, 73914, 73920, 73926, 73933, 73939, 73945, 73951, 73957, 73963, 73969, 73976,
  73982, 73988, 73994, 74000, 74006, 74012, 74018, 74025, 74031, 74037, 74043, 74049, 74055, 74061, 74067, 74073,
  74079, 74085, 74091, 74097, 74103, 74110, 74116, 74122, 74128, 74134, 74140, 74146, 74152, 74158, 74164, 74170,
  74176, 74182, 74188, 74194, 74200, 74206, 74212, 74218, 74224, 74230, 74236, 74242, 74248, 74254, 74260, 74265,
  74271, 74277, 74283, 74289, 74295, 74301, 74307, 74313, 74319, 74325, 74331, 74337, 74343, 74348, 74354, 74360,
  74366, 74372, 74378, 74384, 74390, 74396, 74401, 74407, 74413, 74419, 74425, 74431, 74437, 74442, 74448, 74454,
  74460, 74466, 74472, 74478, 74483, 74489, 74495, 74501, 74507, 74512, 74518, 74524, 74530, 74536, 74541, 74547,
  74553, 74559, 74565, 74570, 74576, 74582, 74588, 74593, 74599, 74605, 74611, 74616, 74622, 74628, 74634, 74639,
  74645, 74651, 74657, 74662, 74668, 74674, 74679, 74685, 74691, 74697, 74702, 74708, 74714, 74719, 74725, 74731,
  74736, 74742, 74748, 74753, 74759, 74765, 74770, 74776, 74782, 74787, 74793, 74799, 74804, 74810, 74816, 74821,
  74827, 74832, 74838, 74844, 74849, 74855, 74861, 74866, 74872, 74877, 74883, 74889, 74894, 74900, 74905, 74911,
  74916, 74922, 74928, 74933, 74939, 74944, 74950, 74955, 74961, 74967, 74972, 74978, 74983, 74989, 74994, 75000,
  75005, 75011, 75016, 75022, 75027, 75033, 75038, 75044, 75049, 75055, 75060, 75066, 75071, 75077, 75082, 75088,
  75093, 75099, 75104, 75110, 75115, 75121, 75126, 75132, 75137, 75143, 75148, 75153, 75159, 75164, 75170, 75175,
  75181, 75186, 75191, 75197, 75202, 75208, 75213, 75219, 75224, 75229, 75235, 75240, 75246, 75251, 75256, 75262,
  75267, 75273, 75278, 75283, 75289, 75294, 75299, 75305, 75310, 75316, 75321, 75326, 75332, 75337, 75342, 75348,
  75353, 75358, 75364, 75369, 75374, 75380, 75385, 75390, 75396, 75401, 75406, 75412, 75417, 75422, 75427, 75433,
  75438, 75443, 75449, 75454, 75459, 75464, 75470, 75475, 75480, 75486, 75491, 75496, 75501, 75507, 75512, 75517,
  75522, 75528, 75533, 75538, 75543, 75549, 75554, 75559, 75564, 75570, 75575, 75580, 75585, 75590, 75596, 75601,
  75606, 75611, 75616, 75622, 75627, 75632, 75637, 75642, 75648, 75653, 75658, 75663, 75668, 75673, 75679, 75684,
  75689, 75694, 75699, 75704, 75710, 75715, 75720, 75725, 75730, 75735, 75740, 75746, 75751, 75756, 75761, 75766,
  75771, 75776, 75781, 75787, 75792, 75797, 75802, 75807, 75812, 75817, 75822, 75827, 75832, 75838, 75843, 75848,
  75853, 75858, 75863, 75868, 75873, 75878, 75883, 75888, 75893, 75898, 75903, 75909, 75914, 75919, 75924, 75929,
  75934, 75939, 75944, 75949, 75954, 75959, 75964, 75969, 75974, 75979, 75984, 75989, 75994, 75999, 76004, 76009,
  76014, 76019, 76024, 76029, 76034, 76039, 76044, 76049, 76054, 76059, 76064, 76069, 76074, 76079, 76084, 76089,
  76094, 76099, 76104, 76109, 76113, 76118, 76123, 76128, 76133, 76138, 76143, 76148, 76153, 76158, 76163, 76168,
  76173, 76178, 76183, 76187, 76192, 76197, 76202, 76207, 76212, 76217, 76222, 76227, 76232, 76236, 76241, 76246,
  76251, 76256, 76261, 76266, 76271, 76275, 76280, 76285, 76290, 76295, 76300, 76305, 76309, 76314, 76319, 76324,
  76329, 76334, 76339, 76343, 76348, 76353, 76358, 76363, 76368, 76372, 76377, 76382, 76387, 76392, 76396, 76401,
  76406, 76411, 76416, 76420, 76425, 76430, 76435, 76440, 76444, 76449, 76454, 76459, 76464, 76468, 76473, 76478,
  76483, 76487, 76492, 76497, 76502, 76506, 76511, 76516, 76521, 76525, 76530, 76535, 76540, 76544, 76549, 76554,
  76559, 76563, 76568, 76573, 76578, 76582, 76587, 76592, 76596, 76601, 76606, 76611, 76615, 76620, 76625, 76629,
  76634, 76639, 76643, 76648, 76653, 76658, 76662, 76667, 76672, 76676, 76681, 76686, 76690, 76695, 76700, 76704,
  76709, 76714, 76718, 76723, 76728, 76732, 76737, 76742, 76746, 76751, 76755, 76760, 76765, 76769, 76774, 76779,
  76783, 76788, 76793, 76797, 76802, 76806, 76811, 76816, 76820, 76825, 76829, 76834, 76839, 76843, 76848, 76852,
  76857, 76862, 76866, 76871, 76875, 76880, 76885, 76889, 76894, 76898, 76903, 76907, 76912, 76917, 76921, 76926,
  76930, 76935, 76939, 76944, 76948, 76953, 76958, 76962, 76967, 76971, 76976, 76980, 76985, 76989, 76994, 76998,
  77003, 77007, 77012, 77017, 77021, 77026, 77030, 77035, 77039, 77044, 77048, 77053, 77057, 77062, 77066, 77071,
  77075, 77080, 77084, 77089, 77093, 77098, 77102, 77107, 77111, 77115, 77120, 77124, 77129, 77133, 77138, 77142,
  77147, 77151, 77156, 77160, 77165, 77169, 77174, 77178, 77182, 77187, 77191, 77196, 77200, 77205, 77209, 77213,
  77218, 77222, 77227, 77231, 77236, 77240, 77244, 77249, 77253, 77258, 77262, 77267, 77271, 77275, 77280, 77284,
  77289, 77293, 77297, 77302, 77306, 77311, 77315, 77319, 77324, 77328, 77332, 77337, 77341, 77346, 77350, 77354,
  77359, 77363, 77367, 77372, 77376, 77381, 77385, 77389, 77394, 77398, 77402, 77407, 77411, 77415, 77420, 77424,
  77428, 77433, 77437, 77441, 77446, 77450, 77454, 77459, 77463, 77467, 77472, 77476, 77480, 77485, 77489, 77493,
  77498, 77502, 77506, 77510, 77515, 77519, 77523, 77528, 77532, 77536, 77541, 77545, 77549, 77553, 77558, 77562,
  77566, 77571, 77575, 77579, 77583, 77588, 77592, 77596, 77600, 77605, 77609, 77613, 77617, 77622, 77626, 77630,
  77634, 77639, 77643, 77647, 77651, 77656, 77660, 77664, 77668, 77673, 77677, 77681, 77685, 77690, 77694, 77698,
  77702, 77706, 77711, 77715, 77719, 77723, 77728, 77732, 77736, 77740, 77744, 77749, 77753, 77757, 77761, 77765,
  77770, 77774, 77778, 77782, 77786, 77790, 77795, 77799, 77803, 77807, 77811, 77816, 77820, 77824, 77828, 77832,
  77836, 77841, 77845, 77849, 77853, 77857, 77861, 77866, 77870, 77874, 77878, 77882, 77886, 77890, 77895, 77899,
  77903, 77907, 77911, 77915, 77919, 77923, 77928, 77932, 77936, 77940, 77944, 77948, 77952, 77956, 77961, 77965,
  77969, 77973, 77977, 77981, 77985, 77989, 77993, 77998, 78002, 78006, 78010, 78014, 78018, 78022, 78026, 78030,
  78034, 78038, 78043, 78047, 78051, 78055, 78059, 78063, 78067, 78071, 78075, 78079, 78083, 78087, 78091, 78095,
  78099, 78104, 78108, 78112, 78116, 78120, 78124, 78128, 78132, 78136, 78140, 78144, 78148, 78152, 78156, 78160,
  78164, 78168, 78172, 78176, 78180, 78184, 78188, 78192, 78196, 78200, 78204, 78208, 78212, 78216, 78220, 78224,
  78228, 78232, 78236, 78240, 78244, 78248, 78252, 78256, 78260, 78264, 78268, 78272, 78276, 78280, 78284, 78288,
  78292, 78296, 78300, 78304, 78308, 78312, 78316, 78320, 78324, 78328, 78332, 78336, 78340, 78344, 78348, 78352,
  78356, 78360, 78364, 78368, 78372, 78376, 78379, 78383, 78387, 78391, 78395, 78399, 78403, 78407, 78411, 78415,
  78419, 78423, 78427, 78431, 78435, 78438, 78442, 78446, 78450, 78454, 78458, 78462, 78466, 78470, 78474, 78478,
  78482, 78485, 78489, 78493, 78497, 78501, 78505, 78509, 78513, 78517, 78521, 78524, 78528, 78532, 78536, 78540,
  78544, 78548, 78552, 78555, 78559, 78563, 78567, 78571, 78575, 78579, 78583, 78586, 78590, 78594, 78598, 78602,
  78606, 78610, 78613, 78617, 78621, 78625, 78629, 78633, 78637, 78640, 78644, 78648, 78652, 78656, 78660, 78663,
  78667, 78671, 78675, 78679, 78683, 78686, 78690, 78694, 78698, 78702, 78705, 78709, 78713, 78717, 78721, 78725,
  78728, 78732, 78736, 78740, 78744, 78747, 78751, 78755, 78759, 78763, 78766, 78770, 78774, 78778, 78782, 78785,
  78789, 78793, 78797, 78800, 78804, 78808, 78812, 78816, 78819, 78823, 78827, 78831, 78834, 78838, 78842, 78846,
  78850, 78853, 78857, 78861, 78865, 78868, 78872, 78876, 78880, 78883, 78887, 78891, 78895, 78898, 78902, 78906,
  78910, 78913, 78917, 78921, 78925, 78928, 78932, 78936, 78939, 78943, 78947, 78951, 78954, 78958, 78962, 78966,
  78969, 78973, 78977, 78980, 78984, 78988, 78992, 78995, 78999, 79003, 79006, 79010, 79014, 79017, 79021, 79025,
  79029, 79032, 79036, 79040, 79043, 79047, 79051, 79054, 79058, 79062, 79065, 79069, 79073, 79077, 79080, 79084,
  79088, 79091, 79095, 79099, 79102, 79106, 79110, 79113, 79117, 79121, 79124, 79128, 79132, 79135, 79139, 79143,
  79146, 79150, 79153, 79157, 79161, 79164, 79168, 79172, 79175, 79179, 79183, 79186, 79190, 79194, 79197, 79201,
  79204, 79208, 79212, 79215, 79219, 79223, 79226, 79230, 79233, 79237, 79241, 79244, 79248, 79252, 79255, 79259,
  79262, 79266, 79270, 79273, 79277, 79280, 79284, 79288, 79291, 79295, 79298, 79302, 79306, 79309, 79313, 79316,
  79320, 79324, 79327, 79331, 79334, 79338, 79342, 79345, 79349, 79352, 79356, 79359, 79363, 79367, 79370, 79374,
  79377, 79381, 79384, 79388, 79392, 79395, 79399, 79402, 79406, 79409, 79413, 79417, 79420, 79424, 79427, 79431,
  79434, 79438, 79441, 79445, 79448, 79452, 79456, 79459, 79463, 79466, 79470, 79473, 79477, 79480, 79484, 79487,
  79491, 79494, 79498, 79501, 79505, 79509, 79512, 79516, 79519, 79523, 79526, 79530, 79533, 79537, 79540, 79544,
  79547, 79551, 79554, 79558, 79561, 79565, 79568, 79572, 79575, 79579, 79582, 79586, 79589, 79593, 79596, 79600,
  79603, 79607, 79610, 79614, 79617, 79621, 79624, 79628, 79631, 79635, 79638, 79642, 79645, 79649, 79652, 79655,
  79659, 79662, 79666, 79669, 79673, 79676, 79680, 79683, 79687, 79690, 79694, 79697, 79700, 79704, 79707, 79711,
  79714, 79718, 79721, 79725, 79728, 79732, 79735, 79738, 79742, 79745, 79749, 79752, 79756, 79759, 79763, 79766,
  79769, 79773, 79776, 79780, 79783, 79787, 79790, 79793, 79797, 79800, 79804, 79807, 79810, 79814, 79817, 79821,
  79824, 79828, 79831, 79834, 79838, 79841, 79845, 79848, 79851, 79855, 79858, 79862, 79865, 79868, 79872, 79875,
  79879, 79882, 79885, 79889, 79892, 79896, 79899, 79902, 79906, 79909, 79913, 79916, 79919, 79923, 79926, 79929,
  79933, 79936, 79940, 79943, 79946, 79950, 79953, 79956, 79960, 79963, 79967, 79970, 79973, 79977, 79980, 79983,
  79987, 79990, 79993, 79997, 80000, 80003, 80007, 80010, 80014, 80017, 80020, 80024, 80027, 80030, 80034, 80037,
  80040, 80044, 80047, 80050, 80054, 80057, 80060, 80064, 80067, 80070, 80074, 80077, 80080, 80084, 80087, 80090,
  80094, 80097, 80100, 80104, 80107, 80110, 80114, 80117, 80120, 80123, 80127, 80130, 80133, 80137, 80140, 80143,
  80147, 80150, 80153, 80157, 80160, 80163, 80166, 80170, 80173, 80176, 80180, 80183, 80186, 80190, 80193, 80196,
  80199, 80203, 80206, 80209, 80213, 80216, 80219, 80222, 80226, 80229, 80232, 80236, 80239, 80242, 80245, 80249,
  80252, 80255, 80258, 80262, 80265, 80268, 80272, 80275, 80278, 80281, 80285, 80288, 80291, 80294, 80298, 80301,
  80304, 80307, 80311, 80314, 80317, 80320, 80324, 80327, 80330, 80333, 80337, 80340, 80343, 80346, 80350, 80353,
  80356, 80359, 80362, 80366, 80369, 80372, 80375, 80379, 80382, 80385, 80388, 80392, 80395, 80398, 80401, 80404,
  80408, 80411, 80414, 80417, 80421, 80424, 80427, 80430, 80433, 80437, 80440, 80443, 80446, 80449, 80453, 80456,
  80459, 80462, 80465, 80469, 80472, 80475, 80478, 80481, 80485, 80488, 80491, 80494, 80497, 80501, 80504, 80507,
  80510, 80513, 80517, 80520, 80523, 80526, 80529, 80533, 80536, 80539, 80542, 80545, 80548, 80552, 80555, 80558,
  80561, 80564, 80567, 80571, 80574, 80577, 80580, 80583, 80586, 80590, 80593, 80596, 80599, 80602, 80605, 80609,
  80612, 80615, 80618, 80621, 80624, 80627, 80631, 80634, 80637, 80640, 80643, 80646, 80650, 80653, 80656, 80659,
  80662, 80665, 80668, 80671, 80675, 80678, 80681, 80684, 80687, 80690, 80693, 80697, 80700, 80703, 80706, 80709,
  80712, 80715, 80718, 80722, 80725, 80728, 80731, 80734, 80737, 80740, 80743, 80746, 80750, 80753, 80756, 80759,
  80762, 80765, 80768, 80771, 80774, 80778, 80781, 80784, 80787, 80790, 80793, 80796, 80799, 80802, 80805, 80809,
  80812, 80815, 80818, 80821, 80824, 80827, 80830, 80833, 80836, 80839, 80843, 80846, 80849, 80852, 80855, 80858,
  80861, 80864, 80867, 80870, 80873, 80876, 80879, 80883, 80886, 80889, 80892, 80895, 80898, 80901, 80904, 80907,
  80910, 80913, 80916, 80919, 80922, 80925, 80929, 80932, 80935, 80938, 80941, 80944, 80947, 80950, 80953, 80956,
  80959, 80962, 80965, 80968, 80971, 80974, 80977, 80980, 80983, 80986, 80989, 80993, 80996, 80999, 81002, 81005,
  81008, 81011, 81014, 81017, 81020, 81023, 81026, 81029, 81032, 81035, 81038, 81041, 81044, 81047, 81050, 81053,
  81056, 81059, 81062, 81065, 81068, 81071, 81074, 81077, 81080, 81083, 81086, 81089, 81092, 81095, 81098, 81101,
  81104, 81107, 81110, 81113, 81116, 81119, 81122, 81125, 81128, 81131, 81134, 81137, 81140, 81143, 81146, 81149,
  81152, 81155, 81158, 81161, 81164, 81167, 81170, 81173, 81176, 81179, 81182, 81185, 81188, 81191, 81194, 81197,
  81200, 81203, 81206, 81209, 81212, 81215, 81218, 81221, 81224, 81227, 81230, 81233, 81236, 81239, 81242, 81244,
  81247, 81250, 81253, 81256, 81259, 81262, 81265, 81268, 81271, 81274, 81277, 81280, 81283, 81286, 81289, 81292,
  81295, 81298, 81301, 81304, 81306, 81309, 81312, 81315, 81318, 81321, 81324, 81327, 81330, 81333, 81336, 81339,
  81342, 81345, 81348, 81351, 81353, 81356, 81359, 81362, 81365, 81368, 81371, 81374, 81377, 81380, 81383, 81386,
  81389, 81391, 81394, 81397, 81400, 81403, 81406, 81409, 81412, 81415, 81418, 81421, 81424, 81426, 81429, 81432,
  81435, 81438, 81441, 81444, 81447, 81450, 81453, 81455, 81458, 81461, 81464, 81467, 81470, 81473, 81476, 81479,
  81482, 81484, 81487, 81490, 81493, 81496, 81499, 81502, 81505, 81508, 81510, 81513, 81516, 81519, 81522, 81525,
  81528, 81531, 81533, 81536, 81539, 81542, 81545, 81548, 81551, 81554, 81556, 81559, 81562, 81565, 81568, 81571,
  81574, 81577, 81579, 81582, 81585, 81588, 81591, 81594, 81597, 81599, 81602, 81605, 81608, 81611, 81614, 81617,
  81619, 81622, 81625, 81628, 81631, 81634, 81637, 81639, 81642, 81645, 81648, 81651, 81654, 81656, 81659, 81662,
  81665, 81668, 81671, 81674, 81676, 81679, 81682, 81685, 81688, 81691, 81693, 81696, 81699, 81702, 81705, 81708,
  81710, 81713, 81716, 81719, 81722, 81724, 81727, 81730, 81733, 81736, 81739, 81741, 81744, 81747, 81750, 81753,
  81755, 81758, 81761, 81764, 81767, 81770, 81772, 81775, 81778, 81781, 81784, 81786, 81789, 81792, 81795, 81798,
  81800, 81803, 81806, 81809, 81812, 81814, 81817, 81820, 81823, 81826, 81828, 81831, 81834, 81837, 81840, 81842,
  81845, 81848, 81851, 81854, 81856, 81859, 81862, 81865, 81867, 81870, 81873, 81876, 81879, 81881, 81884, 81887,
  81890, 81892, 81895, 81898, 81901, 81904, 81906, 81909, 81912, 81915, 81917, 81920, 81923, 81926, 81928, 81931,
  81934, 81937, 81940, 81942, 81945, 81948, 81951, 81953, 81956, 81959, 81962, 81964, 81967, 81970, 81973, 81975,
  81978, 81981, 81984, 81986, 81989, 81992, 81995, 81997, 82000, 82003, 82006, 82008, 82011, 82014, 82017, 82019,
  82022, 82025, 82028, 82030, 82033, 82036, 82039, 82041, 82044, 82047, 82049, 82052, 82055, 82058, 82060, 82063,
  82066, 82069, 82071, 82074, 82077, 82079, 82082, 82085, 82088, 82090, 82093, 82096, 82099, 82101, 82104, 82107,
  82109, 82112, 82115, 82118, 82120, 82123, 82126, 82128, 82131, 82134, 82137, 82139, 82142, 82145, 82147, 82150,
  82153, 82155, 82158, 82161, 82164, 82166, 82169, 82172, 82174, 82177, 82180, 82182, 82185, 82188, 82191, 82193,
  82196, 82199, 82201, 82204, 82207, 82209, 82212, 82215, 82217, 82220, 82223, 82226, 82228, 82231, 82234, 82236,
  82239, 82242, 82244, 82247, 82250, 82252, 82255, 82258, 82260, 82263, 82266, 82268, 82271, 82274, 82276, 82279,
  82282, 82284, 82287, 82290, 82292, 82295, 82298, 82300, 82303, 82306, 82308, 82311, 82314, 82316, 82319, 82322,
  82324, 82327, 82330, 82332, 82335, 82338, 82340, 82343, 82346, 82348, 82351, 82354, 82356, 82359, 82362, 82364,
  82367, 82370, 82372, 82375, 82377, 82380, 82383, 82385, 82388, 82391, 82393, 82396, 82399, 82401, 82404, 82406,
  82409, 82412, 82414, 82417, 82420, 82422, 82425, 82428, 82430, 82433, 82435, 82438, 82441, 82443, 82446, 82449,
  82451, 82454, 82456, 82459, 82462, 82464, 82467, 82470, 82472, 82475, 82477, 82480, 82483, 82485, 82488, 82491,
  82493, 82496, 82498, 82501, 82504, 82506, 82509, 82511, 82514, 82517, 82519, 82522, 82524, 82527, 82530, 82532,
  82535, 82537, 82540, 82543, 82545, 82548, 82550, 82553, 82556, 82558, 82561, 82563, 82566, 82569, 82571, 82574,
  82576, 82579, 82582, 82584, 82587, 82589, 82592, 82595, 82597, 82600, 82602, 82605, 82608, 82610, 82613, 82615,
  82618, 82620, 82623, 82626, 82628, 82631, 82633, 82636, 82638, 82641, 82644, 82646, 82649, 82651, 82654, 82657,
  82659, 82662, 82664, 82667, 82669, 82672, 82674, 82677, 82680, 82682, 82685, 82687, 82690, 82692, 82695, 82698,
  82700, 82703, 82705, 82708, 82710, 82713, 82715, 82718, 82721, 82723, 82726, 82728, 82731, 82733, 82736, 82738,
  82741, 82744, 82746, 82749, 82751, 82754, 82756, 82759, 82761, 82764, 82766, 82769, 82772, 82774, 82777, 82779,
  82782, 82784, 82787, 82789, 82792, 82794, 82797, 82800, 82802, 82805, 82807, 82810, 82812, 82815, 82817, 82820,
  82822, 82825, 82827, 82830, 82832, 82835, 82837, 82840, 82843, 82845, 82848, 82850, 82853, 82855, 82858, 82860,
  82863, 82865, 82868, 82870, 82873, 82875, 82878, 82880, 82883, 82885, 82888, 82890, 82893, 82895, 82898, 82900,
  82903, 82905, 82908, 82910, 82913, 82915, 82918, 82920, 82923, 82925, 82928, 82930, 82933, 82935, 82938, 82940,
  82943, 82945, 82948, 82950, 82953, 82955, 82958, 82960, 82963, 82965, 82968, 82970, 82973, 82975, 82978, 82980,
  82983, 82985, 82988, 82990, 82993, 82995, 82998, 83000, 83003, 83005, 83008, 83010, 83013, 83015, 83018, 83020,
  83023, 83025, 83028, 83030, 83033, 83035, 83038, 83040, 83042, 83045, 83047, 83050, 83052, 83055, 83057, 83060,
  83062, 83065, 83067, 83070, 83072, 83075, 83077, 83080, 83082, 83084, 83087, 83089, 83092, 83094, 83097, 83099,
  83102, 83104, 83107, 83109, 83112, 83114, 83116, 83119, 83121, 83124, 83126, 83129, 83131, 83134, 83136, 83139,
  83141, 83143, 83146, 83148, 83151, 83153, 83156, 83158, 83161, 83163, 83165, 83168, 83170, 83173, 83175, 83178
>>
===============================================================================
