// reference values, computed independently (docs/mj_ref.py)
// REF_F: ln x with P(3/2, x) = exp(-exp(L)) at L = -19 + 21 i / 999
// REF_H: ln x with x - ln(1 + x + x^2/2) = exp(L) at L = -30 + 42 i / 999
static const double REF_F[1000] = {
  3.028113262, 3.027071074, 3.026027773, 3.024983359, 3.023937827, 3.022891177, 3.021843405, 3.020794508,
  3.019744486, 3.018693334, 3.017641052, 3.016587635, 3.015533082, 3.014477391, 3.013420558, 3.012362581,
  3.011303458, 3.010243187, 3.009181764, 3.008119187, 3.007055454, 3.005990563, 3.004924509, 3.003857292,
  3.002788908, 3.001719355, 3.000648631, 2.999576732, 2.998503656, 2.997429400, 2.996353962, 2.995277340,
  2.994199530, 2.993120530, 2.992040337, 2.990958949, 2.989876363, 2.988792576, 2.987707585, 2.986621388,
  2.985533983, 2.984445365, 2.983355534, 2.982264485, 2.981172216, 2.980078725, 2.978984009, 2.977888064,
  2.976790889, 2.975692479, 2.974592833, 2.973491948, 2.972389821, 2.971286448, 2.970181828, 2.969075957,
  2.967968833, 2.966860451, 2.965750811, 2.964639908, 2.963527741, 2.962414305, 2.961299598, 2.960183617,
  2.959066360, 2.957947822, 2.956828002, 2.955706896, 2.954584501, 2.953460815, 2.952335833, 2.951209554,
  2.950081974, 2.948953091, 2.947822900, 2.946691399, 2.945558585, 2.944424456, 2.943289007, 2.942152235,
  2.941014138, 2.939874713, 2.938733956, 2.937591864, 2.936448434, 2.935303663, 2.934157547, 2.933010084,
  2.931861270, 2.930711102, 2.929559577, 2.928406691, 2.927252442, 2.926096825, 2.924939838, 2.923781478,
  2.922621741, 2.921460624, 2.920298123, 2.919134235, 2.917968957, 2.916802286, 2.915634218, 2.914464749,
  2.913293877, 2.912121597, 2.910947907, 2.909772803, 2.908596282, 2.907418339, 2.906238972, 2.905058178,
  2.903875952, 2.902692291, 2.901507192, 2.900320651, 2.899132664, 2.897943228, 2.896752340, 2.895559995,
  2.894366191, 2.893170923, 2.891974188, 2.890775982, 2.889576302, 2.888375144, 2.887172504, 2.885968379,
  2.884762764, 2.883555657, 2.882347053, 2.881136948, 2.879925339, 2.878712223, 2.877497594, 2.876281450,
  2.875063787, 2.873844600, 2.872623886, 2.871401641, 2.870177862, 2.868952543, 2.867725682, 2.866497274,
  2.865267316, 2.864035803, 2.862802731, 2.861568097, 2.860331896, 2.859094125, 2.857854779, 2.856613855,
  2.855371348, 2.854127254, 2.852881569, 2.851634288, 2.850385409, 2.849134927, 2.847882836, 2.846629135,
  2.845373817, 2.844116879, 2.842858317, 2.841598126, 2.840336302, 2.839072841, 2.837807739, 2.836540990,
  2.835272592, 2.834002539, 2.832730827, 2.831457452, 2.830182409, 2.828905694, 2.827627303, 2.826347231,
  2.825065473, 2.823782025, 2.822496883, 2.821210041, 2.819921496, 2.818631243, 2.817339277, 2.816045594,
  2.814750189, 2.813453057, 2.812154194, 2.810853595, 2.809551255, 2.808247170, 2.806941334, 2.805633744,
  2.804324394, 2.803013280, 2.801700396, 2.800385738, 2.799069302, 2.797751081, 2.796431071, 2.795109268,
  2.793785666, 2.792460261, 2.791133047, 2.789804019, 2.788473173, 2.787140503, 2.785806004, 2.784469672,
  2.783131501, 2.781791485, 2.780449621, 2.779105902, 2.777760323, 2.776412880, 2.775063566, 2.773712378,
  2.772359308, 2.771004353, 2.769647507, 2.768288764, 2.766928119, 2.765565567, 2.764201102, 2.762834718,
  2.761466411, 2.760096175, 2.758724005, 2.757349894, 2.755973837, 2.754595828, 2.753215863, 2.751833935,
  2.750450039, 2.749064169, 2.747676319, 2.746286484, 2.744894658, 2.743500834, 2.742105008, 2.740707174,
  2.739307324, 2.737905455, 2.736501559, 2.735095631, 2.733687664, 2.732277654, 2.730865593, 2.729451476,
  2.728035296, 2.726617049, 2.725196726, 2.723774323, 2.722349833, 2.720923250, 2.719494568, 2.718063780,
  2.716630880, 2.715195861, 2.713758718, 2.712319445, 2.710878033, 2.709434478, 2.707988773, 2.706540911,
  2.705090885, 2.703638690, 2.702184318, 2.700727763, 2.699269018, 2.697808077, 2.696344932, 2.694879578,
  2.693412007, 2.691942213, 2.690470188, 2.688995926, 2.687519420, 2.686040664, 2.684559649, 2.683076369,
  2.681590817, 2.680102986, 2.678612869, 2.677120459, 2.675625748, 2.674128729, 2.672629396, 2.671127740,
  2.669623755, 2.668117434, 2.666608768, 2.665097750, 2.663584374, 2.662068631, 2.660550514, 2.659030015,
  2.657507127, 2.655981843, 2.654454154, 2.652924053, 2.651391533, 2.649856584, 2.648319200, 2.646779373,
  2.645237095, 2.643692358, 2.642145154, 2.640595474, 2.639043312, 2.637488659, 2.635931506, 2.634371846,
  2.632809670, 2.631244970, 2.629677738, 2.628107966, 2.626535645, 2.624960766, 2.623383322, 2.621803304,
  2.620220703, 2.618635510, 2.617047718, 2.615457318, 2.613864300, 2.612268656, 2.610670377, 2.609069454,
  2.607465879, 2.605859643, 2.604250736, 2.602639150, 2.601024875, 2.599407902, 2.597788223, 2.596165828,
  2.594540707, 2.592912852, 2.591282253, 2.589648901, 2.588012786, 2.586373899, 2.584732230, 2.583087770,
  2.581440509, 2.579790437, 2.578137544, 2.576481822, 2.574823259, 2.573161846, 2.571497573, 2.569830431,
  2.568160408, 2.566487495, 2.564811682, 2.563132959, 2.561451315, 2.559766739, 2.558079222, 2.556388754,
  2.554695323, 2.552998918, 2.551299531, 2.549597149, 2.547891762, 2.546183359, 2.544471930, 2.542757464,
  2.541039948, 2.539319374, 2.537595729, 2.535869002, 2.534139183, 2.532406259, 2.530670220, 2.528931054,
  2.527188749, 2.525443295, 2.523694680, 2.521942891, 2.520187918, 2.518429748, 2.516668370, 2.514903772,
  2.513135942, 2.511364867, 2.509590536, 2.507812936, 2.506032056, 2.504247883, 2.502460404, 2.500669607,
  2.498875480, 2.497078010, 2.495277184, 2.493472990, 2.491665414, 2.489854445, 2.488040068, 2.486222271,
  2.484401041, 2.482576364, 2.480748228, 2.478916619, 2.477081524, 2.475242928, 2.473400819, 2.471555183,
  2.469706006, 2.467853274, 2.465996974, 2.464137091, 2.462273611, 2.460406520, 2.458535805, 2.456661450,
  2.454783442, 2.452901765, 2.451016405, 2.449127348, 2.447234579, 2.445338083, 2.443437844, 2.441533849,
  2.439626082, 2.437714527, 2.435799170, 2.433879994, 2.431956985, 2.430030128, 2.428099405, 2.426164802,
  2.424226303, 2.422283891, 2.420337551, 2.418387266, 2.416433021, 2.414474798, 2.412512582, 2.410546356,
  2.408576102, 2.406601805, 2.404623448, 2.402641013, 2.400654483, 2.398663842, 2.396669071, 2.394670154,
  2.392667072, 2.390659809, 2.388648347, 2.386632667, 2.384612751, 2.382588583, 2.380560142, 2.378527412,
  2.376490372, 2.374449006, 2.372403294, 2.370353218, 2.368298758, 2.366239895, 2.364176611, 2.362108885,
  2.360036699, 2.357960032, 2.355878866, 2.353793180, 2.351702954, 2.349608169, 2.347508804, 2.345404838,
  2.343296251, 2.341183023, 2.339065132, 2.336942559, 2.334815280, 2.332683277, 2.330546526, 2.328405007,
  2.326258699, 2.324107578, 2.321951623, 2.319790813, 2.317625125, 2.315454536, 2.313279024, 2.311098566,
  2.308913140, 2.306722722, 2.304527289, 2.302326817, 2.300121285, 2.297910666, 2.295694939, 2.293474078,
  2.291248060, 2.289016859, 2.286780453, 2.284538815, 2.282291922, 2.280039748, 2.277782267, 2.275519454,
  2.273251285, 2.270977732, 2.268698770, 2.266414373, 2.264124515, 2.261829168, 2.259528307, 2.257221904,
  2.254909932, 2.252592363, 2.250269171, 2.247940327, 2.245605804, 2.243265573, 2.240919606, 2.238567875,
  2.236210350, 2.233847003, 2.231477805, 2.229102725, 2.226721735, 2.224334804, 2.221941902, 2.219542999,
  2.217138065, 2.214727068, 2.212309978, 2.209886763, 2.207457392, 2.205021833, 2.202580054, 2.200132022,
  2.197677706, 2.195217072, 2.192750087, 2.190276719, 2.187796933, 2.185310696, 2.182817973, 2.180318731,
  2.177812935, 2.175300549, 2.172781539, 2.170255870, 2.167723505, 2.165184408, 2.162638544, 2.160085875,
  2.157526365, 2.154959977, 2.152386672, 2.149806414, 2.147219164, 2.144624883, 2.142023534, 2.139415076,
  2.136799471, 2.134176679, 2.131546659, 2.128909372, 2.126264777, 2.123612833, 2.120953497, 2.118286730,
  2.115612488, 2.112930729, 2.110241410, 2.107544489, 2.104839921, 2.102127663, 2.099407670, 2.096679899,
  2.093944303, 2.091200837, 2.088449456, 2.085690114, 2.082922763, 2.080147357, 2.077363849, 2.074572190,
  2.071772332, 2.068964227, 2.066147826, 2.063323078, 2.060489935, 2.057648345, 2.054798257, 2.051939622,
  2.049072386, 2.046196497, 2.043311903, 2.040418551, 2.037516386, 2.034605355, 2.031685404, 2.028756476,
  2.025818516, 2.022871469, 2.019915277, 2.016949883, 2.013975230, 2.010991259, 2.007997912, 2.004995129,
  2.001982850, 1.998961016, 1.995929564, 1.992888433, 1.989837561, 1.986776886, 1.983706343, 1.980625870,
  1.977535401, 1.974434871, 1.971324215, 1.968203366, 1.965072257, 1.961930821, 1.958778988, 1.955616690,
  1.952443857, 1.949260419, 1.946066304, 1.942861442, 1.939645759, 1.936419182, 1.933181638, 1.929933051,
  1.926673346, 1.923402448, 1.920120279, 1.916826761, 1.913521817, 1.910205366, 1.906877329, 1.903537625,
  1.900186173, 1.896822889, 1.893447690, 1.890060493, 1.886661212, 1.883249761, 1.879826054, 1.876390002,
  1.872941517, 1.869480509, 1.866006889, 1.862520563, 1.859021441, 1.855509428, 1.851984431, 1.848446354,
  1.844895100, 1.841330572, 1.837752672, 1.834161300, 1.830556356, 1.826937737, 1.823305342, 1.819659066,
  1.815998804, 1.812324451, 1.808635899, 1.804933039, 1.801215761, 1.797483956, 1.793737511, 1.789976312,
  1.786200245, 1.782409194, 1.778603042, 1.774781670, 1.770944959, 1.767092788, 1.763225033, 1.759341572,
  1.755442279, 1.751527026, 1.747595687, 1.743648130, 1.739684226, 1.735703841, 1.731706842, 1.727693091,
  1.723662454, 1.719614789, 1.715549957, 1.711467816, 1.707368222, 1.703251029, 1.699116089, 1.694963255,
  1.690792375, 1.686603296, 1.682395864, 1.678169924, 1.673925316, 1.669661881, 1.665379456, 1.661077879,
  1.656756982, 1.652416598, 1.648056558, 1.643676688, 1.639276814, 1.634856761, 1.630416349, 1.625955399,
  1.621473726, 1.616971146, 1.612447471, 1.607902511, 1.603336073, 1.598747964, 1.594137985, 1.589505936,
  1.584851617, 1.580174820, 1.575475340, 1.570752966, 1.566007484, 1.561238680, 1.556446334, 1.551630226,
  1.546790132, 1.541925823, 1.537037070, 1.532123641, 1.527185298, 1.522221802, 1.517232911, 1.512218379,
  1.507177957, 1.502111393, 1.497018430, 1.491898810, 1.486752270, 1.481578543, 1.476377361, 1.471148448,
  1.465891527, 1.460606319, 1.455292536, 1.449949891, 1.444578091, 1.439176838, 1.433745832, 1.428284766,
  1.422793332, 1.417271214, 1.411718096, 1.406133653, 1.400517558, 1.394869479, 1.389189079, 1.383476016,
  1.377729943, 1.371950509, 1.366137357, 1.360290124, 1.354408444, 1.348491944, 1.342540246, 1.336552966,
  1.330529714, 1.324470097, 1.318373712, 1.312240154, 1.306069008, 1.299859857, 1.293612274, 1.287325827,
  1.281000079, 1.274634585, 1.268228891, 1.261782541, 1.255295067, 1.248765998, 1.242194853, 1.235581145,
  1.228924378, 1.222224050, 1.215479649, 1.208690658, 1.201856549, 1.194976788, 1.188050831, 1.181078125,
  1.174058109, 1.166990214, 1.159873861, 1.152708461, 1.145493417, 1.138228120, 1.130911953, 1.123544290,
  1.116124492, 1.108651910, 1.101125888, 1.093545753, 1.085910827, 1.078220416, 1.070473817, 1.062670315,
  1.054809182, 1.046889679, 1.038911053, 1.030872540, 1.022773361, 1.014612726, 1.006389830, 0.998103854,
  0.989753965, 0.981339317, 0.972859047, 0.964312280, 0.955698121, 0.947015665, 0.938263987, 0.929442146,
  0.920549187, 0.911584136, 0.902546000, 0.893433772, 0.884246423, 0.874982910, 0.865642166, 0.856223109,
  0.846724633, 0.837145617, 0.827484914, 0.817741360, 0.807913768, 0.798000927, 0.788001607, 0.777914552,
  0.767738485, 0.757472102, 0.747114077, 0.736663058, 0.726117667, 0.715476499, 0.704738123, 0.693901081,
  0.682963885, 0.671925019, 0.660782940, 0.649536069, 0.638182803, 0.626721501, 0.615150495, 0.603468081,
  0.591672520, 0.579762041, 0.567734837, 0.555589063, 0.543322839, 0.530934243, 0.518421319, 0.505782068,
  0.493014449, 0.480116382, 0.467085743, 0.453920362, 0.440618025, 0.427176474, 0.413593400, 0.399866448,
  0.385993212, 0.371971235, 0.357798008, 0.343470968, 0.328987499, 0.314344925, 0.299540515, 0.284571478,
  0.269434962, 0.254128053, 0.238647773, 0.222991078, 0.207154857, 0.191135931, 0.174931047, 0.158536884,
  0.141950043, 0.125167050, 0.108184351, 0.090998313, 0.073605221, 0.056001272, 0.038182579, 0.020145165,
  0.001884960, -0.016602201, -0.035320576, -0.054274527, -0.073468514, -0.092907105, -0.112594973, -0.132536904,
  -0.152737795, -0.173202662, -0.193936638, -0.214944982, -0.236233076, -0.257806435, -0.279670706, -0.301831671,
  -0.324295255, -0.347067528, -0.370154706, -0.393563159, -0.417299413, -0.441370156, -0.465782241, -0.490542690,
  -0.515658700, -0.541137647, -0.566987093, -0.593214786, -0.619828670, -0.646836890, -0.674247793, -0.702069940,
  -0.730312105, -0.758983286, -0.788092710, -0.817649836, -0.847664365, -0.878146244, -0.909105675, -0.940553119,
  -0.972499305, -1.004955235, -1.037932193, -1.071441753, -1.105495784, -1.140106457, -1.175286258, -1.211047990,
  -1.247404785, -1.284370111, -1.321957778, -1.360181951, -1.399057157, -1.438598290, -1.478820627, -1.519739829,
  -1.561371958, -1.603733480, -1.646841279, -1.690712663, -1.735365375, -1.780817604, -1.827087994, -1.874195650,
  -1.922160156, -1.971001577, -2.020740473, -2.071397910, -2.122995468, -2.175555250, -2.229099897, -2.283652593,
  -2.339237079, -2.395877661, -2.453599220, -2.512427225, -2.572387741, -2.633507438, -2.695813606, -2.759334158,
  -2.824097648, -2.890133275, -2.957470895, -3.026141034, -3.096174893, -3.167604363, -3.240462031, -3.314781194,
  -3.390595866, -3.467940792, -3.546851453, -3.627364082, -3.709515673, -3.793343989, -3.878887576, -3.966185776,
  -4.055278734, -4.146207411, -4.239013601, -4.333739937, -4.430429908, -4.529127871, -4.629879064, -4.732729626,
};
static const double REF_H[1000] = {
  -9.402726219, -9.388711914, -9.374697605, -9.360683291, -9.346668974, -9.332654652, -9.318640326, -9.304625995,
  -9.290611660, -9.276597320, -9.262582976, -9.248568627, -9.234554274, -9.220539915, -9.206525552, -9.192511184,
  -9.178496811, -9.164482432, -9.150468049, -9.136453660, -9.122439266, -9.108424867, -9.094410462, -9.080396052,
  -9.066381636, -9.052367215, -9.038352788, -9.024338355, -9.010323916, -8.996309471, -8.982295020, -8.968280562,
  -8.954266099, -8.940251629, -8.926237153, -8.912222670, -8.898208181, -8.884193685, -8.870179182, -8.856164672,
  -8.842150155, -8.828135631, -8.814121100, -8.800106562, -8.786092016, -8.772077463, -8.758062902, -8.744048333,
  -8.730033757, -8.716019172, -8.702004580, -8.687989979, -8.673975371, -8.659960753, -8.645946127, -8.631931493,
  -8.617916850, -8.603902198, -8.589887537, -8.575872867, -8.561858187, -8.547843498, -8.533828800, -8.519814092,
  -8.505799374, -8.491784646, -8.477769908, -8.463755160, -8.449740402, -8.435725633, -8.421710853, -8.407696063,
  -8.393681262, -8.379666449, -8.365651626, -8.351636790, -8.337621944, -8.323607085, -8.309592215, -8.295577332,
  -8.281562438, -8.267547530, -8.253532611, -8.239517678, -8.225502732, -8.211487774, -8.197472802, -8.183457816,
  -8.169442817, -8.155427804, -8.141412776, -8.127397735, -8.113382679, -8.099367608, -8.085352522, -8.071337422,
  -8.057322305, -8.043307174, -8.029292026, -8.015276863, -8.001261683, -7.987246487, -7.973231274, -7.959216044,
  -7.945200797, -7.931185533, -7.917170251, -7.903154951, -7.889139633, -7.875124297, -7.861108941, -7.847093567,
  -7.833078174, -7.819062761, -7.805047329, -7.791031877, -7.777016404, -7.763000910, -7.748985396, -7.734969861,
  -7.720954304, -7.706938725, -7.692923124, -7.678907501, -7.664891855, -7.650876186, -7.636860494, -7.622844778,
  -7.608829038, -7.594813274, -7.580797485, -7.566781671, -7.552765831, -7.538749966, -7.524734075, -7.510718157,
  -7.496702212, -7.482686240, -7.468670240, -7.454654212, -7.440638156, -7.426622071, -7.412605957, -7.398589813,
  -7.384573639, -7.370557435, -7.356541199, -7.342524933, -7.328508634, -7.314492303, -7.300475940, -7.286459543,
  -7.272443113, -7.258426649, -7.244410150, -7.230393616, -7.216377046, -7.202360440, -7.188343798, -7.174327119,
  -7.160310402, -7.146293647, -7.132276853, -7.118260020, -7.104243147, -7.090226233, -7.076209279, -7.062192283,
  -7.048175246, -7.034158165, -7.020141041, -7.006123874, -6.992106661, -6.978089404, -6.964072101, -6.950054751,
  -6.936037355, -6.922019910, -6.908002417, -6.893984875, -6.879967283, -6.865949641, -6.851931947, -6.837914202,
  -6.823896404, -6.809878552, -6.795860646, -6.781842685, -6.767824669, -6.753806596, -6.739788465, -6.725770277,
  -6.711752029, -6.697733722, -6.683715354, -6.669696925, -6.655678434, -6.641659879, -6.627641260, -6.613622576,
  -6.599603826, -6.585585009, -6.571566124, -6.557547171, -6.543528147, -6.529509054, -6.515489888, -6.501470649,
  -6.487451337, -6.473431950, -6.459412487, -6.445392947, -6.431373329, -6.417353632, -6.403333855, -6.389313996,
  -6.375294055, -6.361274030, -6.347253920, -6.333233724, -6.319213441, -6.305193069, -6.291172608, -6.277152055,
  -6.263131410, -6.249110671, -6.235089837, -6.221068907, -6.207047880, -6.193026753, -6.179005525, -6.164984196,
  -6.150962764, -6.136941227, -6.122919583, -6.108897832, -6.094875971, -6.080853999, -6.066831915, -6.052809718,
  -6.038787404, -6.024764973, -6.010742423, -5.996719753, -5.982696961, -5.968674044, -5.954651001, -5.940627831,
  -5.926604532, -5.912581102, -5.898557538, -5.884533839, -5.870510004, -5.856486030, -5.842461915, -5.828437657,
  -5.814413255, -5.800388705, -5.786364007, -5.772339158, -5.758314156, -5.744288998, -5.730263683, -5.716238209,
  -5.702212572, -5.688186771, -5.674160803, -5.660134667, -5.646108359, -5.632081877, -5.618055219, -5.604028383,
  -5.590001365, -5.575974163, -5.561946775, -5.547919198, -5.533891429, -5.519863465, -5.505835304, -5.491806944,
  -5.477778380, -5.463749611, -5.449720633, -5.435691444, -5.421662039, -5.407632418, -5.393602575, -5.379572509,
  -5.365542216, -5.351511692, -5.337480935, -5.323449942, -5.309418708, -5.295387230, -5.281355506, -5.267323531,
  -5.253291302, -5.239258815, -5.225226067, -5.211193054, -5.197159772, -5.183126217, -5.169092386, -5.155058275,
  -5.141023879, -5.126989195, -5.112954218, -5.098918945, -5.084883371, -5.070847492, -5.056811303, -5.042774801,
  -5.028737980, -5.014700836, -5.000663365, -4.986625562, -4.972587423, -4.958548941, -4.944510114, -4.930470935,
  -4.916431399, -4.902391503, -4.888351239, -4.874310605, -4.860269593, -4.846228199, -4.832186417, -4.818144241,
  -4.804101667, -4.790058689, -4.776015300, -4.761971495, -4.747927268, -4.733882612, -4.719837523, -4.705791993,
  -4.691746017, -4.677699588, -4.663652700, -4.649605345, -4.635557518, -4.621509212, -4.607460420, -4.593411134,
  -4.579361349, -4.565311057, -4.551260250, -4.537208921, -4.523157064, -4.509104669, -4.495051731, -4.480998240,
  -4.466944189, -4.452889571, -4.438834376, -4.424778597, -4.410722226, -4.396665254, -4.382607672, -4.368549471,
  -4.354490644, -4.340431180, -4.326371072, -4.312310309, -4.298248882, -4.284186782, -4.270124000, -4.256060524,
  -4.241996347, -4.227931457, -4.213865844, -4.199799498, -4.185732409, -4.171664566, -4.157595958, -4.143526574,
  -4.129456403, -4.115385433, -4.101313655, -4.087241055, -4.073167622, -4.059093344, -4.045018209, -4.030942205,
  -4.016865319, -4.002787539, -3.988708851, -3.974629244, -3.960548702, -3.946467215, -3.932384766, -3.918301344,
  -3.904216933, -3.890131520, -3.876045091, -3.861957630, -3.847869122, -3.833779554, -3.819688909, -3.805597172,
  -3.791504328, -3.777410360, -3.763315252, -3.749218988, -3.735121552, -3.721022925, -3.706923092, -3.692822034,
  -3.678719735, -3.664616176, -3.650511339, -3.636405205, -3.622297757, -3.608188974, -3.594078838, -3.579967329,
  -3.565854428, -3.551740113, -3.537624365, -3.523507164, -3.509388487, -3.495268314, -3.481146622, -3.467023391,
  -3.452898597, -3.438772219, -3.424644232, -3.410514614, -3.396383341, -3.382250389, -3.368115734, -3.353979351,
  -3.339841214, -3.325701299, -3.311559579, -3.297416029, -3.283270621, -3.269123328, -3.254974124, -3.240822980,
  -3.226669868, -3.212514759, -3.198357624, -3.184198434, -3.170037158, -3.155873767, -3.141708229, -3.127540512,
  -3.113370586, -3.099198417, -3.085023973, -3.070847220, -3.056668125, -3.042486653, -3.028302769, -3.014116439,
  -2.999927626, -2.985736293, -2.971542404, -2.957345921, -2.943146806, -2.928945020, -2.914740524, -2.900533277,
  -2.886323240, -2.872110371, -2.857894628, -2.843675969, -2.829454351, -2.815229730, -2.801002062, -2.786771300,
  -2.772537401, -2.758300317, -2.744060001, -2.729816404, -2.715569479, -2.701319176, -2.687065445, -2.672808234,
  -2.658547491, -2.644283165, -2.630015202, -2.615743548, -2.601468146, -2.587188943, -2.572905879, -2.558618899,
  -2.544327943, -2.530032952, -2.515733865, -2.501430621, -2.487123158, -2.472811411, -2.458495317, -2.444174811,
  -2.429849825, -2.415520293, -2.401186145, -2.386847313, -2.372503725, -2.358155309, -2.343801994, -2.329443703,
  -2.315080363, -2.300711895, -2.286338224, -2.271959269, -2.257574951, -2.243185187, -2.228789895, -2.214388990,
  -2.199982387, -2.185569999, -2.171151738, -2.156727514, -2.142297234, -2.127860808, -2.113418140, -2.098969135,
  -2.084513694, -2.070051720, -2.055583112, -2.041107767, -2.026625582, -2.012136451, -1.997640267, -1.983136920,
  -1.968626300, -1.954108294, -1.939582788, -1.925049664, -1.910508805, -1.895960091, -1.881403398, -1.866838602,
  -1.852265578, -1.837684197, -1.823094327, -1.808495836, -1.793888588, -1.779272447, -1.764647273, -1.750012924,
  -1.735369255, -1.720716119, -1.706053368, -1.691380848, -1.676698407, -1.662005886, -1.647303127, -1.632589967,
  -1.617866240, -1.603131778, -1.588386412, -1.573629967, -1.558862266, -1.544083129, -1.529292375, -1.514489817,
  -1.499675265, -1.484848528, -1.470009409, -1.455157711, -1.440293229, -1.425415759, -1.410525090, -1.395621010,
  -1.380703302, -1.365771745, -1.350826114, -1.335866182, -1.320891715, -1.305902478, -1.290898230, -1.275878727,
  -1.260843719, -1.245792953, -1.230726171, -1.215643112, -1.200543508, -1.185427087, -1.170293574, -1.155142688,
  -1.139974141, -1.124787644, -1.109582900, -1.094359606, -1.079117458, -1.063856142, -1.048575340, -1.033274730,
  -1.017953982, -1.002612761, -0.987250727, -0.971867532, -0.956462825, -0.941036245, -0.925587427, -0.910115999,
  -0.894621583, -0.879103792, -0.863562236, -0.847996514, -0.832406220, -0.816790942, -0.801150258, -0.785483740,
  -0.769790953, -0.754071453, -0.738324788, -0.722550499, -0.706748120, -0.690917173, -0.675057176, -0.659167635,
  -0.643248049, -0.627297908, -0.611316693, -0.595303875, -0.579258917, -0.563181272, -0.547070383, -0.530925684,
  -0.514746599, -0.498532542, -0.482282916, -0.465997114, -0.449674519, -0.433314502, -0.416916426, -0.400479640,
  -0.384003482, -0.367487281, -0.350930352, -0.334332001, -0.317691518, -0.301008186, -0.284281272, -0.267510033,
  -0.250693711, -0.233831539, -0.216922733, -0.199966500, -0.182962031, -0.165908505, -0.148805087, -0.131650929,
  -0.114445170, -0.097186932, -0.079875326, -0.062509448, -0.045088379, -0.027611186, -0.010076923, 0.007515374,
  0.025166681, 0.042877990, 0.060650309, 0.078484659, 0.096382079, 0.114343619, 0.132370350, 0.150463354,
  0.168623730, 0.186852594, 0.205151076, 0.223520321, 0.241961492, 0.260475765, 0.279064335, 0.297728409,
  0.316469213, 0.335287986, 0.354185985, 0.373164479, 0.392224755, 0.411368116, 0.430595877, 0.449909371,
  0.469309944, 0.488798957, 0.508377787, 0.528047822, 0.547810466, 0.567667138, 0.587619267, 0.607668297,
  0.627815684, 0.648062898, 0.668411419, 0.688862738, 0.709418358, 0.730079793, 0.750848565, 0.771726208,
  0.792714263, 0.813814279, 0.835027813, 0.856356428, 0.877801695, 0.899365189, 0.921048488, 0.942853176,
  0.964780840, 0.986833066, 1.009011443, 1.031317560, 1.053753005, 1.076319362, 1.099018215, 1.121851140,
  1.144819710, 1.167925491, 1.191170040, 1.214554906, 1.238081627, 1.261751728, 1.285566723, 1.309528110,
  1.333637372, 1.357895974, 1.382305361, 1.406866961, 1.431582176, 1.456452388, 1.481478953, 1.506663200,
  1.532006430, 1.557509915, 1.583174897, 1.609002584, 1.634994149, 1.661150730, 1.687473429, 1.713963308,
  1.740621388, 1.767448649, 1.794446028, 1.821614415, 1.848954657, 1.876467551, 1.904153845, 1.932014238,
  1.960049377, 1.988259855, 2.016646213, 2.045208936, 2.073948452, 2.102865133, 2.131959293, 2.161231188,
  2.190681010, 2.220308897, 2.250114922, 2.280099096, 2.310261370, 2.340601633, 2.371119709, 2.401815362,
  2.432688289, 2.463738129, 2.494964454, 2.526366776, 2.557944542, 2.589697140, 2.621623893, 2.653724064,
  2.685996857, 2.718441414, 2.751056820, 2.783842100, 2.816796223, 2.849918100, 2.883206590, 2.916660497,
  2.950278571, 2.984059512, 3.018001971, 3.052104550, 3.086365804, 3.120784244, 3.155358336, 3.190086506,
  3.224967139, 3.259998581, 3.295179143, 3.330507102, 3.365980700, 3.401598151, 3.437357637, 3.473257316,
  3.509295320, 3.545469756, 3.581778714, 3.618220261, 3.654792448, 3.691493311, 3.728320873, 3.765273144,
  3.802348125, 3.839543809, 3.876858183, 3.914289230, 3.951834930, 3.989493260, 4.027262202, 4.065139737,
  4.103123851, 4.141212534, 4.179403785, 4.217695610, 4.256086024, 4.294573055, 4.333154741, 4.371829133,
  4.410594300, 4.449448322, 4.488389299, 4.527415347, 4.566524601, 4.605715215, 4.644985365, 4.684333245,
  4.723757074, 4.763255090, 4.802825556, 4.842466759, 4.882177010, 4.921954641, 4.961798015, 5.001705514,
  5.041675551, 5.081706562, 5.121797009, 5.161945382, 5.202150196, 5.242409994, 5.282723343, 5.323088841,
  5.363505110, 5.403970798, 5.444484583, 5.485045167, 5.525651279, 5.566301675, 5.606995137, 5.647730474,
  5.688506520, 5.729322135, 5.770176205, 5.811067640, 5.851995376, 5.892958374, 5.933955619, 5.974986120,
  6.016048910, 6.057143046, 6.098267608, 6.139421697, 6.180604440, 6.221814983, 6.263052495, 6.304316167,
  6.345605210, 6.386918856, 6.428256357, 6.469616985, 6.511000032, 6.552404810, 6.593830646, 6.635276889,
  6.676742906, 6.718228079, 6.759731809, 6.801253514, 6.842792628, 6.884348600, 6.925920897, 6.967508999,
  7.009112403, 7.050730620, 7.092363175, 7.134009606, 7.175669467, 7.217342323, 7.259027753, 7.300725349,
  7.342434715, 7.384155466, 7.425887229, 7.467629643, 7.509382358, 7.551145035, 7.592917344, 7.634698966,
  7.676489593, 7.718288925, 7.760096671, 7.801912552, 7.843736295, 7.885567637, 7.927406322, 7.969252103,
  8.011104742, 8.052964006, 8.094829671, 8.136701522, 8.178579346, 8.220462943, 8.262352114, 8.304246670,
  8.346146427, 8.388051206, 8.429960836, 8.471875150, 8.513793988, 8.555717192, 8.597644614, 8.639576106,
  8.681511529, 8.723450746, 8.765393626, 8.807340042, 8.849289870, 8.891242992, 8.933199294, 8.975158663,
  9.017120993, 9.059086181, 9.101054126, 9.143024732, 9.184997905, 9.226973554, 9.268951594, 9.310931939,
  9.352914509, 9.394899224, 9.436886010, 9.478874792, 9.520865500, 9.562858067, 9.604852424, 9.646848511,
  9.688846264, 9.730845624, 9.772846535, 9.814848940, 9.856852787, 9.898858025, 9.940864602, 9.982872472,
  10.024881589, 10.066891906, 10.108903383, 10.150915975, 10.192929645, 10.234944352, 10.276960061, 10.318976733,
  10.360994335, 10.403012834, 10.445032196, 10.487052392, 10.529073389, 10.571095160, 10.613117677, 10.655140912,
  10.697164839, 10.739189434, 10.781214672, 10.823240529, 10.865266984, 10.907294014, 10.949321598, 10.991349717,
  11.033378350, 11.075407480, 11.117437087, 11.159467155, 11.201497666, 11.243528605, 11.285559955, 11.327591702,
  11.369623831, 11.411656328, 11.453689180, 11.495722374, 11.537755896, 11.579789735, 11.621823880, 11.663858319,
  11.705893041, 11.747928035, 11.789963293, 11.831998803, 11.874034557, 11.916070546, 11.958106761, 12.000143194,
};
