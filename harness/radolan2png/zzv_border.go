package main

// zzvBorder are points of the border of Germany, as they were in the original
// program: every fortieth.
var zzvBorder = [][2]float64{
	{47.27011, 10.17834}, {47.30386, 10.32442}, {47.36157, 10.22527}, {47.38377, 10.23373}, {47.39691, 10.98321}, {47.41450, 10.08538},
	{47.43108, 11.22693}, {47.44868, 11.34753}, {47.47209, 10.46770}, {47.48395, 10.44474}, {47.50039, 10.43307}, {47.51165, 12.88724},
	{47.52197, 11.58197}, {47.53337, 9.86181}, {47.53707, 10.75130}, {47.54411, 10.57989}, {47.55018, 10.47377}, {47.55653, 7.79299},
	{47.56302, 7.90881}, {47.56930, 8.36191}, {47.57723, 7.68255}, {47.58319, 10.45809}, {47.58602, 11.65530}, {47.59061, 8.29673},
	{47.59900, 8.17148}, {47.60787, 13.07156}, {47.61229, 8.57439}, {47.61727, 8.22007}, {47.62959, 12.20263}, {47.64076, 7.55389},
	{47.65022, 7.53633}, {47.65778, 13.08613}, {47.66552, 8.96567}, {47.67332, 12.62101}, {47.68056, 12.16838}, {47.68844, 8.79707},
	{47.69325, 8.72775}, {47.70237, 12.18580}, {47.70966, 8.70618}, {47.71791, 8.44165}, {47.73102, 12.90958}, {47.75654, 8.69675},
	{47.77315, 8.48908}, {47.79208, 8.62111}, {47.84038, 13.00132}, {47.93596, 7.58683}, {48.00760, 12.85730}, {48.09435, 7.57625},
	{48.15972, 12.83513}, {48.22037, 7.66559}, {48.29239, 13.16904}, {48.35533, 7.73863}, {48.45894, 7.76586}, {48.52391, 13.69646},
	{48.55646, 7.80565}, {48.57290, 13.54789}, {48.63350, 7.83606}, {48.70377, 7.94113}, {48.77079, 13.83140}, {48.83859, 8.10910},
	{48.89435, 13.66152}, {48.94762, 13.61838}, {48.97004, 13.51884}, {49.00607, 8.06141}, {49.04220, 7.87690}, {49.05282, 13.38634},
	{49.08199, 13.34656}, {49.11694, 7.28262}, {49.12762, 7.14089}, {49.14352, 7.10313}, {49.16278, 7.45920}, {49.17452, 6.85402},
	{49.19731, 13.12314}, {49.21955, 6.93909}, {49.26402, 6.66276}, {49.32500, 12.98575}, {49.34746, 12.88020}, {49.39688, 12.75427},
	{49.44605, 12.65641}, {49.48968, 6.36857}, {49.55748, 12.57694}, {49.62126, 12.54579}, {49.68672, 6.45500}, {49.73313, 6.50160},
	{49.79229, 12.47013}, {49.83263, 12.47307}, {49.87519, 12.51865}, {49.93205, 12.49899}, {49.98075, 6.16849}, {50.01436, 12.37930},
	{50.05812, 6.11324}, {50.10980, 12.20063}, {50.17176, 6.15999}, {50.19769, 12.19631}, {50.22778, 12.33093}, {50.24628, 6.20475},
	{50.27012, 12.21316}, {50.30186, 12.12182}, {50.31875, 12.13229}, {50.35072, 6.38942}, {50.40074, 12.70831}, {50.41573, 12.71830},
	{50.44228, 12.79991}, {50.48936, 6.34411}, {50.50657, 13.16390}, {50.54583, 13.22166}, {50.58144, 6.21908}, {50.61171, 6.26197},
	{50.63176, 6.19933}, {50.64881, 13.37201}, {50.71064, 13.54446}, {50.72697, 13.85497}, {50.75212, 6.02453}, {50.80420, 14.03144},
	{50.82206, 14.72234}, {50.84654, 6.07417}, {50.86730, 6.08512}, {50.89508, 6.07648}, {50.91819, 14.86839}, {50.93638, 14.39698},
	{50.96697, 6.01825}, {50.98357, 14.59880}, {51.00822, 14.56682}, {51.02835, 14.94778}, {51.04198, 14.34922}, {51.06900, 5.98090},
	{51.13661, 6.10227}, {51.18003, 15.00817}, {51.23631, 15.02762}, {51.30085, 15.01325}, {51.36622, 14.97797}, {51.44439, 14.96950},
	{51.49778, 6.21357}, {51.55802, 6.16310}, {51.63107, 14.75546}, {51.68887, 14.73393}, {51.74483, 14.65852}, {51.80783, 14.60231},
	{51.83996, 6.40501}, {51.85499, 6.40325}, {51.86811, 6.29634}, {51.88649, 6.18466}, {51.90309, 6.14687}, {51.96030, 6.80570},
	{52.02354, 6.76186}, {52.08174, 6.74714}, {52.13549, 14.68098}, {52.20921, 6.97597}, {52.26386, 14.64078}, {52.34257, 7.06149},
	{52.42551, 14.54396}, {52.45919, 6.84473}, {52.50735, 6.70210}, {52.57098, 14.63971}, {52.63490, 7.02693}, {52.64955, 6.85647},
	{52.72677, 7.06457}, {52.80161, 14.23635}, {52.86774, 14.15010}, {52.96362, 14.15219}, {53.04572, 14.33514}, {53.09342, 14.36983},
	{53.12312, 14.38030}, {53.16845, 14.36678}, {53.19819, 14.37600}, {53.24134, 14.43272}, {53.28208, 7.23669}, {53.32347, 8.51955},
	{53.33764, 8.49275}, {53.37804, 7.00795}, {53.40706, 8.47584}, {53.43644, 8.48396}, {53.45788, 14.35777}, {53.48741, 8.06110},
	{53.50794, 8.51453}, {53.52107, 8.27998}, {53.53562, 8.55312}, {53.55551, 14.30402}, {53.56876, 6.69078}, {53.58473, 8.37142},
	{53.59668, 6.77168}, {53.60740, 6.66912}, {53.61675, 7.14818}, {53.63235, 9.57413}, {53.64478, 8.49315}, {53.66562, 8.48497},
	{53.67313, 9.53017}, {53.67964, 6.96474}, {53.68443, 7.36010}, {53.69573, 14.27008}, {53.70177, 9.45870}, {53.70852, 8.49354},
	{53.71554, 7.96815}, {53.72144, 7.18219}, {53.72713, 8.17392}, {53.73718, 14.12479}, {53.74747, 7.56152}, {53.75659, 7.51150},
	{53.76414, 8.00060}, {53.77626, 9.36477}, {53.78241, 9.35921}, {53.79471, 9.40335}, {53.82813, 9.29806}, {53.83769, 9.00943},
	{53.84592, 8.75405}, {53.85701, 14.00627}, {53.86549, 13.83127}, {53.87117, 13.83674}, {53.88368, 9.24265}, {53.89354, 8.96724},
	{53.90865, 13.88242}, {53.92399, 8.48844}, {53.93718, 13.93113}, {53.94789, 13.96645}, {53.95811, 13.90759}, {53.96545, 13.96292},
	{53.97528, 14.14380}, {53.98535, 13.90151}, {53.99337, 11.00258}, {54.00352, 11.19264}, {54.01093, 11.49552}, {54.01829, 13.79973},
	{54.02676, 13.80702}, {54.03653, 13.92431}, {54.04450, 11.58498}, {54.05598, 8.69524}, {54.06604, 8.69891}, {54.08343, 13.91211},
	{54.09229, 8.95036}, {54.10647, 13.79472}, {54.12125, 13.43920}, {54.13332, 10.94656}, {54.14438, 13.39297}, {54.15204, 13.75100},
	{54.16157, 11.93148}, {54.17070, 13.39413}, {54.17974, 11.05241}, {54.19542, 11.07837}, {54.22626, 11.08836}, {54.24250, 8.83587},
	{54.25339, 13.37901}, {54.26050, 13.39073}, {54.26866, 13.15297}, {54.27340, 13.36197}, {54.28163, 8.78833}, {54.28815, 8.70623},
	{54.29619, 13.18092}, {54.30402, 8.60807}, {54.31098, 10.13391}, {54.31855, 13.13313}, {54.32571, 13.53018}, {54.33245, 13.66141},
	{54.33851, 13.75215}, {54.34417, 10.64193}, {54.35043, 13.65329}, {54.35613, 11.06321}, {54.36530, 10.19459}, {54.36958, 13.09120},
	{54.37275, 12.58147}, {54.37698, 10.16374}, {54.38093, 12.71709}, {54.38465, 11.08384}, {54.39091, 12.43538}, {54.39856, 13.62939},
	{54.40372, 10.44320}, {54.40815, 12.66569}, {54.41265, 8.89645}, {54.41759, 12.64807}, {54.42325, 13.18203}, {54.42834, 10.37313},
	{54.43577, 11.09276}, {54.44193, 12.75302}, {54.44562, 12.63942}, {54.45078, 11.27694}, {54.45912, 13.21801}, {54.46378, 8.73047},
	{54.47043, 13.56982}, {54.47642, 9.85224}, {54.48226, 10.09796}, {54.48887, 13.19609}, {54.49620, 8.60980}, {54.50518, 8.82074},
	{54.51297, 8.58978}, {54.52058, 8.98773}, {54.52821, 10.00321}, {54.53676, 13.50677}, {54.54528, 13.15872}, {54.55170, 13.25141},
	{54.56000, 13.16130}, {54.57043, 13.45531}, {54.57638, 8.50901}, {54.58191, 13.56945}, {54.59334, 13.21290}, {54.60445, 8.82485},
	{54.62011, 10.03356}, {54.63238, 8.38095}, {54.64099, 13.22090}, {54.65446, 13.24238}, {54.67186, 8.68703}, {54.68112, 8.50775},
	{54.69492, 8.42731}, {54.72394, 8.70883}, {54.75109, 8.46852}, {54.77162, 9.96187}, {54.79552, 9.77491}, {54.80861, 9.71194},
	{54.82258, 9.64780}, {54.83937, 9.52647}, {54.85900, 8.30729}, {54.87200, 9.60873}, {54.88448, 8.40453}, {54.90092, 8.70768},
	{54.94187, 8.36245},
}
