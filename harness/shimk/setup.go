package shimk

// A trusted setup of degree 258 of the big field, by the definition of a trusted setup (generated: omega is a root of unity
// of order 5743, the secret is 1234567891).
const setupOmega = 616107207

var setupL = [258]uint32{1612417770, 1836714411, 202004226, 446619250, 55353061, 189265819, 1369135214, 1719290311, 1103281426, 1962364736, 497996577, 864935079, 1611934860, 2084444093, 514464090, 41413247, 1515797086, 1510566757, 1490097096, 1062843087, 1308070271, 890463026, 1211067773, 1551018901, 1894476209, 382970319, 298588548, 579916672, 1722758908, 110157343, 1140513845, 843090674, 168694951, 1398459912, 1200370538, 1703167913, 1441991531, 1894666820, 1277300744, 1945372721, 724635949, 760855475, 278391873, 1745054388, 849873328, 2119292618, 217602656, 1794046900, 1986494128, 521845658, 867450330, 323676025, 862308390, 1411145804, 1347218918, 183300475, 456374052, 1010299495, 1887343916, 862861379, 662548693, 1361025165, 1786581914, 215159810, 1539888386, 941763962, 708069749, 1521819678, 383472315, 1224973753, 959383006, 1053169458, 499374987, 629081372, 1833323506, 1326464399, 1584384809, 267463984, 956623851, 1818542508, 1694976968, 9199225, 2049996018, 429850814, 1682395031, 228994097, 1253114591, 1324087147, 1607301519, 1080626698, 252956883, 2038728305, 711661775, 2100495035, 863172378, 1632207749, 1315059621, 969771171, 2006003260, 1784550768, 1214491094, 2079688968, 2043968917, 2131529776, 114333254, 94226448, 1439410959, 736958522, 2046505530, 1908070495, 1312697323, 917307340, 847652037, 1716134130, 2103932417, 475842316, 78249434, 1467265513, 976973437, 263387520, 983093999, 88532719, 51299119, 1464014677, 344860742, 837762230, 1876587973, 227636946, 936982701, 1507853215, 1250912641, 1738844029, 1695467223, 622998960, 478740053, 1624154118, 1333239132, 888741429, 1362054752, 111383559, 706648883, 1095090172, 809999598, 248196893, 223091850, 1418104487, 44908946, 552785298, 602394282, 46928931, 435109487, 1171301347, 1189621871, 318180525, 2020346344, 1554472386, 235555914, 33640650, 1967138402, 466370222, 453014635, 1320317631, 2104669483, 1926645067, 239690444, 1300708816, 35795279, 1688358452, 160829106, 1360136326, 931955123, 2050510178, 348823522, 229354859, 992524541, 2032397419, 632613267, 1886342776, 2127308467, 1541461088, 1797542635, 8798509, 283102225, 1681198811, 1809599679, 560939183, 1885702840, 2115340793, 2075871137, 1598517233, 1422978156, 1528325830, 1625719540, 416960217, 575918551, 866118638, 1009895746, 1761580661, 1770577194, 1276359231, 1205155845, 1266490686, 951903803, 1133868479, 753031940, 734291262, 128774605, 2012775175, 2098673986, 1789126187, 1243110920, 744284975, 1518366769, 1159877649, 632096419, 765189088, 1169708877, 933084407, 1175719816, 2072715313, 1750341768, 356503692, 1697012700, 236564491, 1320317991, 1028890186, 550106983, 92453444, 2010975947, 1576002855, 1923765550, 2055718607, 1210473235, 649208643, 568061841, 2026884262, 1330458117, 1465390613, 1317025870, 1302464159, 1522146136, 1008478662, 1762159587, 627878800, 1624437061, 2070647324, 1752571514, 1699874241, 1093507028, 611528021, 1276249591, 1466386027, 1542168511, 1795361424, 691148642, 1054457822, 990452072, 222911815}

var setupDiff = [258]uint32{1234567890, 618460684, 1480789022, 930961636, 2085732502, 17274384, 1406213877, 226992643, 361115790, 219772898, 1016191614, 127374567, 2018740222, 1484213000, 138852070, 1897440173, 1925893440, 1221837320, 481931346, 2015280398, 1981607888, 227043215, 347598775, 1561203775, 509783824, 1267086670, 1177074229, 1117532630, 1976547469, 453677075, 1661454518, 457324051, 69427340, 217670872, 1964022629, 1341335054, 1880692972, 819793227, 76223136, 1667079926, 403804760, 278806018, 1256715684, 1841239410, 1447619642, 1048673987, 499408858, 99237722, 68906734, 867999181, 934005234, 925642106, 1525424343, 451552049, 1216505151, 1852561271, 592445822, 2059186134, 847375362, 1900429349, 1731963164, 153754730, 1526190653, 1794366887, 1388577783, 379605381, 884536833, 1740564733, 2108772443, 1195360134, 1657965630, 103019649, 925239857, 798397164, 878090748, 943645835, 641286316, 999216453, 708738016, 757624031, 1572621728, 899953160, 1183739612, 2141618458, 1731861271, 424688782, 727156783, 891496527, 977369880, 841616808, 1331941627, 1451750006, 1467112263, 1850705035, 684160020, 567504511, 1308537303, 986995106, 443193694, 448398729, 236785791, 921060114, 971216932, 795793169, 143275063, 1469111247, 1935024259, 259366361, 998332939, 299011316, 850870065, 774037477, 1469427879, 1962328652, 883808833, 512268984, 937291673, 924833827, 585810553, 260409664, 1637331549, 758379034, 868857830, 1960285673, 655364046, 1546646384, 674818540, 1165337701, 1897590678, 955071595, 625240861, 662091623, 1109404966, 632926749, 832212015, 1160734550, 334535724, 1305765378, 807394300, 1303441222, 466200853, 1449339960, 1879847808, 1546593995, 58615747, 531863723, 506310829, 195864159, 1548995365, 1524929860, 307916274, 2001935679, 1899460925, 271870854, 1165521589, 2017786307, 1311864511, 2134934274, 783248090, 2053478306, 656760899, 1550752741, 2049716375, 1534910572, 206758654, 2090371284, 408273962, 406164668, 982596442, 733424543, 1594546701, 304665605, 570390715, 177181945, 652440102, 1557872119, 1248936427, 903827552, 2043766742, 670523117, 622393017, 501126555, 1018375228, 70198931, 1790459512, 1067697005, 1192938533, 1848094455, 1620569230, 1111724353, 511477701, 243331939, 1397851425, 704128558, 345198238, 64475244, 1789608286, 1420313288, 1269233521, 642112729, 1088528808, 536792136, 1941408870, 1586443408, 1077169601, 352836908, 795933587, 1453630154, 2018193589, 1945357517, 1573398059, 100635229, 1428368152, 127796676, 146429712, 917952148, 2055600949, 1794549829, 638433151, 1733749195, 797551819, 1758446581, 394983346, 387817724, 543957761, 1486110463, 2053107304, 1420991525, 578938845, 994906806, 522724235, 1218141922, 1722816142, 1965628827, 512951375, 1907665594, 675525446, 629634533, 2103510533, 740588094, 1083495621, 333717337, 446477132, 490134494, 1621149219, 139062658, 235851651, 1614741107, 134093217, 1288718866, 438846862, 1779916632, 1722858284, 774975040, 885365285, 1796677426, 254778357, 810581519}

// SetupBin stands for the setup shipped with the package.
func SetupBin() []byte {
	r := append(make([]byte, 0, 2+scalarSize+258*80), 2, 1)
	r = append(r, encode(form{c: setupOmega}, scalarSize)...)
	for _, x := range setupL {
		r = append(r, encode(form{c: uint64(x)}, 64)...)
	}
	for _, x := range setupDiff {
		r = append(r, encode(form{c: uint64(x)}, 16)...)
	}
	return r
}
