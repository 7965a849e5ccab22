// Code generated by places.py. DO NOT EDIT.

package h

// place is where a value of a JSON text is.
type place struct {
	key        string // of the member, or of the member whose list it is in
	kind       string
	entry      bool // in a list
	start, end int  // the value
	from, upto int  // the member or entry, with one of the commas around it
}

const placesText21 = `{"spdxVersion":"SPDX-2.1","dataLicense":"CC0-1.0","SPDXID":"SPDXRef-DOCUMENT","name":"n","documentNamespace":"http://x.example/n","externalDocumentRefs":[{"externalDocumentId":"DocumentRef-d","spdxDocument":"http://x.example/d","checksum":{"algorithm":"SHA1","checksumValue":"85ed0817af83a24ad8da68c2b5094de69833983c"}}],"comment":"c","creationInfo":{"licenseListVersion":"3.9","creators":["Tool: t"],"created":"2020-01-01T00:00:00Z","comment":"c"},"packages":[{"name":"p","SPDXID":"SPDXRef-p","versionInfo":"1","packageFileName":"f","supplier":"Person: s","originator":"Organization: o","downloadLocation":"NONE","filesAnalyzed":true,"packageVerificationCode":{"packageVerificationCodeValue":"v","packageVerificationCodeExcludedFiles":["e"]},"checksums":[{"algorithm":"SHA1","checksumValue":"85ed0817af83a24ad8da68c2b5094de69833983c"}],"homepage":"h","sourceInfo":"i","licenseConcluded":"MIT","licenseInfoFromFiles":["MIT"],"licenseDeclared":"MIT","licenseComments":"c","copyrightText":"c","summary":"s","description":"d","comment":"c","externalRefs":[{"referenceCategory":"SECURITY","referenceType":"cpe22Type","referenceLocator":"l","comment":"c"}],"files":[{"fileName":"./g","SPDXID":"SPDXRef-g","checksums":[{"algorithm":"SHA1","checksumValue":"85ed0817af83a24ad8da68c2b5094de69833983c"}]}],"annotations":[{"annotator":"Person: a","annotationDate":"2020-01-01T00:00:00Z","annotationType":"REVIEW","comment":"c"}]}],"files":[{"fileName":"./f","SPDXID":"SPDXRef-f","fileTypes":["SOURCE"],"checksums":[{"algorithm":"SHA1","checksumValue":"85ed0817af83a24ad8da68c2b5094de69833983c"}],"licenseConcluded":"MIT","licenseInfoInFiles":["MIT"],"licenseComments":"c","copyrightText":"c","comment":"c","noticeText":"n","fileContributors":["c"],"annotations":[{"annotator":"Person: a","annotationDate":"2020-01-01T00:00:00Z","annotationType":"REVIEW","comment":"c"}]}],"hasExtractedLicensingInfos":[{"licenseId":"LicenseRef-1","extractedText":"t","name":"n","seeAlsos":["u"],"comment":"c"}],"relationships":[{"spdxElementId":"SPDXRef-DOCUMENT","relatedSpdxElement":"SPDXRef-p","relationshipType":"DESCRIBES","comment":"c"}],"annotations":[{"annotator":"Person: a","annotationDate":"2020-01-01T00:00:00Z","annotationType":"REVIEW","comment":"c"}],"snippets":[{"SPDXID":"SPDXRef-s","snippetFromFile":"SPDXRef-f","ranges":[{"startPointer":{"offset":1,"lineNumber":2,"reference":"SPDXRef-f"},"endPointer":{"offset":3,"lineNumber":4,"reference":"SPDXRef-f"}}],"licenseConcluded":"MIT","licenseInfoInSnippets":["MIT"],"licenseComments":"c","copyrightText":"c","comment":"c","name":"s"}]}`

var places21 = []place{
	{"spdxVersion", "string", false, 15, 25, 1, 26},
	{"dataLicense", "string", false, 40, 49, 25, 49},
	{"SPDXID", "string", false, 59, 77, 49, 77},
	{"name", "string", false, 85, 88, 77, 88},
	{"documentNamespace", "string", false, 109, 129, 88, 129},
	{"externalDocumentRefs", "list", false, 153, 320, 129, 320},
	{"externalDocumentRefs", "object", true, 154, 319, 154, 319},
	{"externalDocumentId", "string", false, 176, 191, 155, 192},
	{"spdxDocument", "string", false, 207, 227, 191, 227},
	{"checksum", "object", false, 239, 318, 227, 318},
	{"algorithm", "string", false, 252, 258, 240, 259},
	{"checksumValue", "string", false, 275, 317, 258, 317},
	{"comment", "string", false, 331, 334, 320, 334},
	{"creationInfo", "object", false, 350, 448, 334, 448},
	{"licenseListVersion", "string", false, 372, 377, 351, 378},
	{"creators", "list", false, 389, 400, 377, 400},
	{"creators", "string", true, 390, 399, 390, 399},
	{"created", "string", false, 411, 433, 400, 433},
	{"comment", "string", false, 444, 447, 433, 447},
	{"packages", "list", false, 460, 1419, 448, 1419},
	{"packages", "object", true, 461, 1418, 461, 1418},
	{"name", "string", false, 469, 472, 462, 473},
	{"SPDXID", "string", false, 482, 493, 472, 493},
	{"versionInfo", "string", false, 508, 511, 493, 511},
	{"packageFileName", "string", false, 530, 533, 511, 533},
	{"supplier", "string", false, 545, 556, 533, 556},
	{"originator", "string", false, 570, 587, 556, 587},
	{"downloadLocation", "string", false, 607, 613, 587, 613},
	{"filesAnalyzed", "bool", false, 630, 634, 613, 634},
	{"packageVerificationCode", "object", false, 661, 742, 634, 742},
	{"packageVerificationCodeValue", "string", false, 693, 696, 662, 697},
	{"packageVerificationCodeExcludedFiles", "list", false, 736, 741, 696, 741},
	{"packageVerificationCodeExcludedFiles", "string", true, 737, 740, 737, 740},
	{"checksums", "list", false, 755, 836, 742, 836},
	{"checksums", "object", true, 756, 835, 756, 835},
	{"algorithm", "string", false, 769, 775, 757, 776},
	{"checksumValue", "string", false, 792, 834, 775, 834},
	{"homepage", "string", false, 848, 851, 836, 851},
	{"sourceInfo", "string", false, 865, 868, 851, 868},
	{"licenseConcluded", "string", false, 888, 893, 868, 893},
	{"licenseInfoFromFiles", "list", false, 917, 924, 893, 924},
	{"licenseInfoFromFiles", "string", true, 918, 923, 918, 923},
	{"licenseDeclared", "string", false, 943, 948, 924, 948},
	{"licenseComments", "string", false, 967, 970, 948, 970},
	{"copyrightText", "string", false, 987, 990, 970, 990},
	{"summary", "string", false, 1001, 1004, 990, 1004},
	{"description", "string", false, 1019, 1022, 1004, 1022},
	{"comment", "string", false, 1033, 1036, 1022, 1036},
	{"externalRefs", "list", false, 1052, 1151, 1036, 1151},
	{"externalRefs", "object", true, 1053, 1150, 1053, 1150},
	{"referenceCategory", "string", false, 1074, 1084, 1054, 1085},
	{"referenceType", "string", false, 1101, 1112, 1084, 1112},
	{"referenceLocator", "string", false, 1132, 1135, 1112, 1135},
	{"comment", "string", false, 1146, 1149, 1135, 1149},
	{"files", "list", false, 1160, 1295, 1151, 1295},
	{"files", "object", true, 1161, 1294, 1161, 1294},
	{"fileName", "string", false, 1173, 1178, 1162, 1179},
	{"SPDXID", "string", false, 1188, 1199, 1178, 1199},
	{"checksums", "list", false, 1212, 1293, 1199, 1293},
	{"checksums", "object", true, 1213, 1292, 1213, 1292},
	{"algorithm", "string", false, 1226, 1232, 1214, 1233},
	{"checksumValue", "string", false, 1249, 1291, 1232, 1291},
	{"annotations", "list", false, 1310, 1417, 1295, 1417},
	{"annotations", "object", true, 1311, 1416, 1311, 1416},
	{"annotator", "string", false, 1324, 1335, 1312, 1336},
	{"annotationDate", "string", false, 1353, 1375, 1335, 1375},
	{"annotationType", "string", false, 1393, 1401, 1375, 1401},
	{"comment", "string", false, 1412, 1415, 1401, 1415},
	{"files", "list", false, 1428, 1860, 1419, 1860},
	{"files", "object", true, 1429, 1859, 1429, 1859},
	{"fileName", "string", false, 1441, 1446, 1430, 1447},
	{"SPDXID", "string", false, 1456, 1467, 1446, 1467},
	{"fileTypes", "list", false, 1480, 1490, 1467, 1490},
	{"fileTypes", "string", true, 1481, 1489, 1481, 1489},
	{"checksums", "list", false, 1503, 1584, 1490, 1584},
	{"checksums", "object", true, 1504, 1583, 1504, 1583},
	{"algorithm", "string", false, 1517, 1523, 1505, 1524},
	{"checksumValue", "string", false, 1540, 1582, 1523, 1582},
	{"licenseConcluded", "string", false, 1604, 1609, 1584, 1609},
	{"licenseInfoInFiles", "list", false, 1631, 1638, 1609, 1638},
	{"licenseInfoInFiles", "string", true, 1632, 1637, 1632, 1637},
	{"licenseComments", "string", false, 1657, 1660, 1638, 1660},
	{"copyrightText", "string", false, 1677, 1680, 1660, 1680},
	{"comment", "string", false, 1691, 1694, 1680, 1694},
	{"noticeText", "string", false, 1708, 1711, 1694, 1711},
	{"fileContributors", "list", false, 1731, 1736, 1711, 1736},
	{"fileContributors", "string", true, 1732, 1735, 1732, 1735},
	{"annotations", "list", false, 1751, 1858, 1736, 1858},
	{"annotations", "object", true, 1752, 1857, 1752, 1857},
	{"annotator", "string", false, 1765, 1776, 1753, 1777},
	{"annotationDate", "string", false, 1794, 1816, 1776, 1816},
	{"annotationType", "string", false, 1834, 1842, 1816, 1842},
	{"comment", "string", false, 1853, 1856, 1842, 1856},
	{"hasExtractedLicensingInfos", "list", false, 1890, 1982, 1860, 1982},
	{"hasExtractedLicensingInfos", "object", true, 1891, 1981, 1891, 1981},
	{"licenseId", "string", false, 1904, 1918, 1892, 1919},
	{"extractedText", "string", false, 1935, 1938, 1918, 1938},
	{"name", "string", false, 1946, 1949, 1938, 1949},
	{"seeAlsos", "list", false, 1961, 1966, 1949, 1966},
	{"seeAlsos", "string", true, 1962, 1965, 1962, 1965},
	{"comment", "string", false, 1977, 1980, 1966, 1980},
	{"relationships", "list", false, 1999, 2115, 1982, 2115},
	{"relationships", "object", true, 2000, 2114, 2000, 2114},
	{"spdxElementId", "string", false, 2017, 2035, 2001, 2036},
	{"relatedSpdxElement", "string", false, 2057, 2068, 2035, 2068},
	{"relationshipType", "string", false, 2088, 2099, 2068, 2099},
	{"comment", "string", false, 2110, 2113, 2099, 2113},
	{"annotations", "list", false, 2130, 2237, 2115, 2237},
	{"annotations", "object", true, 2131, 2236, 2131, 2236},
	{"annotator", "string", false, 2144, 2155, 2132, 2156},
	{"annotationDate", "string", false, 2173, 2195, 2155, 2195},
	{"annotationType", "string", false, 2213, 2221, 2195, 2221},
	{"comment", "string", false, 2232, 2235, 2221, 2235},
	{"snippets", "list", false, 2249, 2572, 2237, 2572},
	{"snippets", "object", true, 2250, 2571, 2250, 2571},
	{"SPDXID", "string", false, 2260, 2271, 2251, 2272},
	{"snippetFromFile", "string", false, 2290, 2301, 2271, 2301},
	{"ranges", "list", false, 2311, 2446, 2301, 2446},
	{"ranges", "object", true, 2312, 2445, 2312, 2445},
	{"startPointer", "object", false, 2328, 2379, 2313, 2380},
	{"offset", "number", false, 2338, 2339, 2329, 2340},
	{"lineNumber", "number", false, 2353, 2354, 2339, 2354},
	{"reference", "string", false, 2367, 2378, 2354, 2378},
	{"endPointer", "object", false, 2393, 2444, 2379, 2444},
	{"offset", "number", false, 2403, 2404, 2394, 2405},
	{"lineNumber", "number", false, 2418, 2419, 2404, 2419},
	{"reference", "string", false, 2432, 2443, 2419, 2443},
	{"licenseConcluded", "string", false, 2466, 2471, 2446, 2471},
	{"licenseInfoInSnippets", "list", false, 2496, 2503, 2471, 2503},
	{"licenseInfoInSnippets", "string", true, 2497, 2502, 2497, 2502},
	{"licenseComments", "string", false, 2522, 2525, 2503, 2525},
	{"copyrightText", "string", false, 2542, 2545, 2525, 2545},
	{"comment", "string", false, 2556, 2559, 2545, 2559},
	{"name", "string", false, 2567, 2570, 2559, 2570},
}

const placesText22 = `{"spdxVersion":"SPDX-2.2","dataLicense":"CC0-1.0","SPDXID":"SPDXRef-DOCUMENT","name":"n","documentNamespace":"http://x.example/n","externalDocumentRefs":[{"externalDocumentId":"DocumentRef-d","spdxDocument":"http://x.example/d","checksum":{"algorithm":"SHA1","checksumValue":"85ed0817af83a24ad8da68c2b5094de69833983c"}}],"comment":"c","creationInfo":{"licenseListVersion":"3.9","creators":["Tool: t"],"created":"2020-01-01T00:00:00Z","comment":"c"},"packages":[{"name":"p","SPDXID":"SPDXRef-p","versionInfo":"1","packageFileName":"f","supplier":"Person: s","originator":"Organization: o","downloadLocation":"NONE","filesAnalyzed":true,"packageVerificationCode":{"packageVerificationCodeValue":"v","packageVerificationCodeExcludedFiles":["e"]},"checksums":[{"algorithm":"SHA1","checksumValue":"85ed0817af83a24ad8da68c2b5094de69833983c"}],"homepage":"h","sourceInfo":"i","licenseConcluded":"MIT","licenseInfoFromFiles":["MIT"],"licenseDeclared":"MIT","licenseComments":"c","copyrightText":"c","summary":"s","description":"d","comment":"c","externalRefs":[{"referenceCategory":"SECURITY","referenceType":"cpe22Type","referenceLocator":"l","comment":"c"}],"files":[{"fileName":"./g","SPDXID":"SPDXRef-g","checksums":[{"algorithm":"SHA1","checksumValue":"85ed0817af83a24ad8da68c2b5094de69833983c"}]}],"annotations":[{"annotator":"Person: a","annotationDate":"2020-01-01T00:00:00Z","annotationType":"REVIEW","comment":"c"}],"attributionTexts":["t"],"hasFiles":["SPDXRef-f"]}],"files":[{"fileName":"./f","SPDXID":"SPDXRef-f","fileTypes":["SOURCE"],"checksums":[{"algorithm":"SHA1","checksumValue":"85ed0817af83a24ad8da68c2b5094de69833983c"}],"licenseConcluded":"MIT","licenseInfoInFiles":["MIT"],"licenseComments":"c","copyrightText":"c","comment":"c","noticeText":"n","fileContributors":["c"],"annotations":[{"annotator":"Person: a","annotationDate":"2020-01-01T00:00:00Z","annotationType":"REVIEW","comment":"c"}],"attributionTexts":["t"]}],"hasExtractedLicensingInfos":[{"licenseId":"LicenseRef-1","extractedText":"t","name":"n","seeAlsos":["u"],"comment":"c"}],"relationships":[{"spdxElementId":"SPDXRef-DOCUMENT","relatedSpdxElement":"SPDXRef-p","relationshipType":"DESCRIBES","comment":"c"}],"annotations":[{"annotator":"Person: a","annotationDate":"2020-01-01T00:00:00Z","annotationType":"REVIEW","comment":"c"}],"snippets":[{"SPDXID":"SPDXRef-s","snippetFromFile":"SPDXRef-f","ranges":[{"startPointer":{"offset":1,"lineNumber":2,"reference":"SPDXRef-f"},"endPointer":{"offset":3,"lineNumber":4,"reference":"SPDXRef-f"}}],"licenseConcluded":"MIT","licenseInfoInSnippets":["MIT"],"licenseComments":"c","copyrightText":"c","comment":"c","name":"s"}],"documentDescribes":["SPDXRef-p"]}`

var places22 = []place{
	{"spdxVersion", "string", false, 15, 25, 1, 26},
	{"dataLicense", "string", false, 40, 49, 25, 49},
	{"SPDXID", "string", false, 59, 77, 49, 77},
	{"name", "string", false, 85, 88, 77, 88},
	{"documentNamespace", "string", false, 109, 129, 88, 129},
	{"externalDocumentRefs", "list", false, 153, 320, 129, 320},
	{"externalDocumentRefs", "object", true, 154, 319, 154, 319},
	{"externalDocumentId", "string", false, 176, 191, 155, 192},
	{"spdxDocument", "string", false, 207, 227, 191, 227},
	{"checksum", "object", false, 239, 318, 227, 318},
	{"algorithm", "string", false, 252, 258, 240, 259},
	{"checksumValue", "string", false, 275, 317, 258, 317},
	{"comment", "string", false, 331, 334, 320, 334},
	{"creationInfo", "object", false, 350, 448, 334, 448},
	{"licenseListVersion", "string", false, 372, 377, 351, 378},
	{"creators", "list", false, 389, 400, 377, 400},
	{"creators", "string", true, 390, 399, 390, 399},
	{"created", "string", false, 411, 433, 400, 433},
	{"comment", "string", false, 444, 447, 433, 447},
	{"packages", "list", false, 460, 1469, 448, 1469},
	{"packages", "object", true, 461, 1468, 461, 1468},
	{"name", "string", false, 469, 472, 462, 473},
	{"SPDXID", "string", false, 482, 493, 472, 493},
	{"versionInfo", "string", false, 508, 511, 493, 511},
	{"packageFileName", "string", false, 530, 533, 511, 533},
	{"supplier", "string", false, 545, 556, 533, 556},
	{"originator", "string", false, 570, 587, 556, 587},
	{"downloadLocation", "string", false, 607, 613, 587, 613},
	{"filesAnalyzed", "bool", false, 630, 634, 613, 634},
	{"packageVerificationCode", "object", false, 661, 742, 634, 742},
	{"packageVerificationCodeValue", "string", false, 693, 696, 662, 697},
	{"packageVerificationCodeExcludedFiles", "list", false, 736, 741, 696, 741},
	{"packageVerificationCodeExcludedFiles", "string", true, 737, 740, 737, 740},
	{"checksums", "list", false, 755, 836, 742, 836},
	{"checksums", "object", true, 756, 835, 756, 835},
	{"algorithm", "string", false, 769, 775, 757, 776},
	{"checksumValue", "string", false, 792, 834, 775, 834},
	{"homepage", "string", false, 848, 851, 836, 851},
	{"sourceInfo", "string", false, 865, 868, 851, 868},
	{"licenseConcluded", "string", false, 888, 893, 868, 893},
	{"licenseInfoFromFiles", "list", false, 917, 924, 893, 924},
	{"licenseInfoFromFiles", "string", true, 918, 923, 918, 923},
	{"licenseDeclared", "string", false, 943, 948, 924, 948},
	{"licenseComments", "string", false, 967, 970, 948, 970},
	{"copyrightText", "string", false, 987, 990, 970, 990},
	{"summary", "string", false, 1001, 1004, 990, 1004},
	{"description", "string", false, 1019, 1022, 1004, 1022},
	{"comment", "string", false, 1033, 1036, 1022, 1036},
	{"externalRefs", "list", false, 1052, 1151, 1036, 1151},
	{"externalRefs", "object", true, 1053, 1150, 1053, 1150},
	{"referenceCategory", "string", false, 1074, 1084, 1054, 1085},
	{"referenceType", "string", false, 1101, 1112, 1084, 1112},
	{"referenceLocator", "string", false, 1132, 1135, 1112, 1135},
	{"comment", "string", false, 1146, 1149, 1135, 1149},
	{"files", "list", false, 1160, 1295, 1151, 1295},
	{"files", "object", true, 1161, 1294, 1161, 1294},
	{"fileName", "string", false, 1173, 1178, 1162, 1179},
	{"SPDXID", "string", false, 1188, 1199, 1178, 1199},
	{"checksums", "list", false, 1212, 1293, 1199, 1293},
	{"checksums", "object", true, 1213, 1292, 1213, 1292},
	{"algorithm", "string", false, 1226, 1232, 1214, 1233},
	{"checksumValue", "string", false, 1249, 1291, 1232, 1291},
	{"annotations", "list", false, 1310, 1417, 1295, 1417},
	{"annotations", "object", true, 1311, 1416, 1311, 1416},
	{"annotator", "string", false, 1324, 1335, 1312, 1336},
	{"annotationDate", "string", false, 1353, 1375, 1335, 1375},
	{"annotationType", "string", false, 1393, 1401, 1375, 1401},
	{"comment", "string", false, 1412, 1415, 1401, 1415},
	{"attributionTexts", "list", false, 1437, 1442, 1417, 1442},
	{"attributionTexts", "string", true, 1438, 1441, 1438, 1441},
	{"hasFiles", "list", false, 1454, 1467, 1442, 1467},
	{"hasFiles", "string", true, 1455, 1466, 1455, 1466},
	{"files", "list", false, 1478, 1935, 1469, 1935},
	{"files", "object", true, 1479, 1934, 1479, 1934},
	{"fileName", "string", false, 1491, 1496, 1480, 1497},
	{"SPDXID", "string", false, 1506, 1517, 1496, 1517},
	{"fileTypes", "list", false, 1530, 1540, 1517, 1540},
	{"fileTypes", "string", true, 1531, 1539, 1531, 1539},
	{"checksums", "list", false, 1553, 1634, 1540, 1634},
	{"checksums", "object", true, 1554, 1633, 1554, 1633},
	{"algorithm", "string", false, 1567, 1573, 1555, 1574},
	{"checksumValue", "string", false, 1590, 1632, 1573, 1632},
	{"licenseConcluded", "string", false, 1654, 1659, 1634, 1659},
	{"licenseInfoInFiles", "list", false, 1681, 1688, 1659, 1688},
	{"licenseInfoInFiles", "string", true, 1682, 1687, 1682, 1687},
	{"licenseComments", "string", false, 1707, 1710, 1688, 1710},
	{"copyrightText", "string", false, 1727, 1730, 1710, 1730},
	{"comment", "string", false, 1741, 1744, 1730, 1744},
	{"noticeText", "string", false, 1758, 1761, 1744, 1761},
	{"fileContributors", "list", false, 1781, 1786, 1761, 1786},
	{"fileContributors", "string", true, 1782, 1785, 1782, 1785},
	{"annotations", "list", false, 1801, 1908, 1786, 1908},
	{"annotations", "object", true, 1802, 1907, 1802, 1907},
	{"annotator", "string", false, 1815, 1826, 1803, 1827},
	{"annotationDate", "string", false, 1844, 1866, 1826, 1866},
	{"annotationType", "string", false, 1884, 1892, 1866, 1892},
	{"comment", "string", false, 1903, 1906, 1892, 1906},
	{"attributionTexts", "list", false, 1928, 1933, 1908, 1933},
	{"attributionTexts", "string", true, 1929, 1932, 1929, 1932},
	{"hasExtractedLicensingInfos", "list", false, 1965, 2057, 1935, 2057},
	{"hasExtractedLicensingInfos", "object", true, 1966, 2056, 1966, 2056},
	{"licenseId", "string", false, 1979, 1993, 1967, 1994},
	{"extractedText", "string", false, 2010, 2013, 1993, 2013},
	{"name", "string", false, 2021, 2024, 2013, 2024},
	{"seeAlsos", "list", false, 2036, 2041, 2024, 2041},
	{"seeAlsos", "string", true, 2037, 2040, 2037, 2040},
	{"comment", "string", false, 2052, 2055, 2041, 2055},
	{"relationships", "list", false, 2074, 2190, 2057, 2190},
	{"relationships", "object", true, 2075, 2189, 2075, 2189},
	{"spdxElementId", "string", false, 2092, 2110, 2076, 2111},
	{"relatedSpdxElement", "string", false, 2132, 2143, 2110, 2143},
	{"relationshipType", "string", false, 2163, 2174, 2143, 2174},
	{"comment", "string", false, 2185, 2188, 2174, 2188},
	{"annotations", "list", false, 2205, 2312, 2190, 2312},
	{"annotations", "object", true, 2206, 2311, 2206, 2311},
	{"annotator", "string", false, 2219, 2230, 2207, 2231},
	{"annotationDate", "string", false, 2248, 2270, 2230, 2270},
	{"annotationType", "string", false, 2288, 2296, 2270, 2296},
	{"comment", "string", false, 2307, 2310, 2296, 2310},
	{"snippets", "list", false, 2324, 2647, 2312, 2647},
	{"snippets", "object", true, 2325, 2646, 2325, 2646},
	{"SPDXID", "string", false, 2335, 2346, 2326, 2347},
	{"snippetFromFile", "string", false, 2365, 2376, 2346, 2376},
	{"ranges", "list", false, 2386, 2521, 2376, 2521},
	{"ranges", "object", true, 2387, 2520, 2387, 2520},
	{"startPointer", "object", false, 2403, 2454, 2388, 2455},
	{"offset", "number", false, 2413, 2414, 2404, 2415},
	{"lineNumber", "number", false, 2428, 2429, 2414, 2429},
	{"reference", "string", false, 2442, 2453, 2429, 2453},
	{"endPointer", "object", false, 2468, 2519, 2454, 2519},
	{"offset", "number", false, 2478, 2479, 2469, 2480},
	{"lineNumber", "number", false, 2493, 2494, 2479, 2494},
	{"reference", "string", false, 2507, 2518, 2494, 2518},
	{"licenseConcluded", "string", false, 2541, 2546, 2521, 2546},
	{"licenseInfoInSnippets", "list", false, 2571, 2578, 2546, 2578},
	{"licenseInfoInSnippets", "string", true, 2572, 2577, 2572, 2577},
	{"licenseComments", "string", false, 2597, 2600, 2578, 2600},
	{"copyrightText", "string", false, 2617, 2620, 2600, 2620},
	{"comment", "string", false, 2631, 2634, 2620, 2634},
	{"name", "string", false, 2642, 2645, 2634, 2645},
	{"documentDescribes", "list", false, 2668, 2681, 2647, 2681},
	{"documentDescribes", "string", true, 2669, 2680, 2669, 2680},
}

const placesText23 = `{"spdxVersion":"SPDX-2.3","dataLicense":"CC0-1.0","SPDXID":"SPDXRef-DOCUMENT","name":"n","documentNamespace":"http://x.example/n","externalDocumentRefs":[{"externalDocumentId":"DocumentRef-d","spdxDocument":"http://x.example/d","checksum":{"algorithm":"SHA1","checksumValue":"85ed0817af83a24ad8da68c2b5094de69833983c"}}],"comment":"c","creationInfo":{"licenseListVersion":"3.9","creators":["Tool: t"],"created":"2020-01-01T00:00:00Z","comment":"c"},"packages":[{"name":"p","SPDXID":"SPDXRef-p","versionInfo":"1","packageFileName":"f","supplier":"Person: s","originator":"Organization: o","downloadLocation":"NONE","filesAnalyzed":true,"packageVerificationCode":{"packageVerificationCodeValue":"v","packageVerificationCodeExcludedFiles":["e"]},"checksums":[{"algorithm":"SHA1","checksumValue":"85ed0817af83a24ad8da68c2b5094de69833983c"}],"homepage":"h","sourceInfo":"i","licenseConcluded":"MIT","licenseInfoFromFiles":["MIT"],"licenseDeclared":"MIT","licenseComments":"c","copyrightText":"c","summary":"s","description":"d","comment":"c","externalRefs":[{"referenceCategory":"SECURITY","referenceType":"cpe22Type","referenceLocator":"l","comment":"c"}],"files":[{"fileName":"./g","SPDXID":"SPDXRef-g","checksums":[{"algorithm":"SHA1","checksumValue":"85ed0817af83a24ad8da68c2b5094de69833983c"}]}],"annotations":[{"annotator":"Person: a","annotationDate":"2020-01-01T00:00:00Z","annotationType":"REVIEW","comment":"c"}],"attributionTexts":["t"],"hasFiles":["SPDXRef-f"],"primaryPackagePurpose":"LIBRARY","releaseDate":"2020-01-01T00:00:00Z","builtDate":"2020-01-01T00:00:00Z","validUntilDate":"2020-01-01T00:00:00Z"}],"files":[{"fileName":"./f","SPDXID":"SPDXRef-f","fileTypes":["SOURCE"],"checksums":[{"algorithm":"SHA1","checksumValue":"85ed0817af83a24ad8da68c2b5094de69833983c"}],"licenseConcluded":"MIT","licenseInfoInFiles":["MIT"],"licenseComments":"c","copyrightText":"c","comment":"c","noticeText":"n","fileContributors":["c"],"annotations":[{"annotator":"Person: a","annotationDate":"2020-01-01T00:00:00Z","annotationType":"REVIEW","comment":"c"}],"attributionTexts":["t"],"artifactOfs":[{"name":"n","homePage":"h","URI":"u"}],"fileDependencies":["SPDXRef-g"]}],"hasExtractedLicensingInfos":[{"licenseId":"LicenseRef-1","extractedText":"t","name":"n","seeAlsos":["u"],"comment":"c"}],"relationships":[{"spdxElementId":"SPDXRef-DOCUMENT","relatedSpdxElement":"SPDXRef-p","relationshipType":"DESCRIBES","comment":"c"}],"annotations":[{"annotator":"Person: a","annotationDate":"2020-01-01T00:00:00Z","annotationType":"REVIEW","comment":"c"}],"snippets":[{"SPDXID":"SPDXRef-s","snippetFromFile":"SPDXRef-f","ranges":[{"startPointer":{"offset":1,"lineNumber":2,"reference":"SPDXRef-f"},"endPointer":{"offset":3,"lineNumber":4,"reference":"SPDXRef-f"}}],"licenseConcluded":"MIT","licenseInfoInSnippets":["MIT"],"licenseComments":"c","copyrightText":"c","comment":"c","name":"s"}],"documentDescribes":["SPDXRef-p"]}`

var places23 = []place{
	{"spdxVersion", "string", false, 15, 25, 1, 26},
	{"dataLicense", "string", false, 40, 49, 25, 49},
	{"SPDXID", "string", false, 59, 77, 49, 77},
	{"name", "string", false, 85, 88, 77, 88},
	{"documentNamespace", "string", false, 109, 129, 88, 129},
	{"externalDocumentRefs", "list", false, 153, 320, 129, 320},
	{"externalDocumentRefs", "object", true, 154, 319, 154, 319},
	{"externalDocumentId", "string", false, 176, 191, 155, 192},
	{"spdxDocument", "string", false, 207, 227, 191, 227},
	{"checksum", "object", false, 239, 318, 227, 318},
	{"algorithm", "string", false, 252, 258, 240, 259},
	{"checksumValue", "string", false, 275, 317, 258, 317},
	{"comment", "string", false, 331, 334, 320, 334},
	{"creationInfo", "object", false, 350, 448, 334, 448},
	{"licenseListVersion", "string", false, 372, 377, 351, 378},
	{"creators", "list", false, 389, 400, 377, 400},
	{"creators", "string", true, 390, 399, 390, 399},
	{"created", "string", false, 411, 433, 400, 433},
	{"comment", "string", false, 444, 447, 433, 447},
	{"packages", "list", false, 460, 1615, 448, 1615},
	{"packages", "object", true, 461, 1614, 461, 1614},
	{"name", "string", false, 469, 472, 462, 473},
	{"SPDXID", "string", false, 482, 493, 472, 493},
	{"versionInfo", "string", false, 508, 511, 493, 511},
	{"packageFileName", "string", false, 530, 533, 511, 533},
	{"supplier", "string", false, 545, 556, 533, 556},
	{"originator", "string", false, 570, 587, 556, 587},
	{"downloadLocation", "string", false, 607, 613, 587, 613},
	{"filesAnalyzed", "bool", false, 630, 634, 613, 634},
	{"packageVerificationCode", "object", false, 661, 742, 634, 742},
	{"packageVerificationCodeValue", "string", false, 693, 696, 662, 697},
	{"packageVerificationCodeExcludedFiles", "list", false, 736, 741, 696, 741},
	{"packageVerificationCodeExcludedFiles", "string", true, 737, 740, 737, 740},
	{"checksums", "list", false, 755, 836, 742, 836},
	{"checksums", "object", true, 756, 835, 756, 835},
	{"algorithm", "string", false, 769, 775, 757, 776},
	{"checksumValue", "string", false, 792, 834, 775, 834},
	{"homepage", "string", false, 848, 851, 836, 851},
	{"sourceInfo", "string", false, 865, 868, 851, 868},
	{"licenseConcluded", "string", false, 888, 893, 868, 893},
	{"licenseInfoFromFiles", "list", false, 917, 924, 893, 924},
	{"licenseInfoFromFiles", "string", true, 918, 923, 918, 923},
	{"licenseDeclared", "string", false, 943, 948, 924, 948},
	{"licenseComments", "string", false, 967, 970, 948, 970},
	{"copyrightText", "string", false, 987, 990, 970, 990},
	{"summary", "string", false, 1001, 1004, 990, 1004},
	{"description", "string", false, 1019, 1022, 1004, 1022},
	{"comment", "string", false, 1033, 1036, 1022, 1036},
	{"externalRefs", "list", false, 1052, 1151, 1036, 1151},
	{"externalRefs", "object", true, 1053, 1150, 1053, 1150},
	{"referenceCategory", "string", false, 1074, 1084, 1054, 1085},
	{"referenceType", "string", false, 1101, 1112, 1084, 1112},
	{"referenceLocator", "string", false, 1132, 1135, 1112, 1135},
	{"comment", "string", false, 1146, 1149, 1135, 1149},
	{"files", "list", false, 1160, 1295, 1151, 1295},
	{"files", "object", true, 1161, 1294, 1161, 1294},
	{"fileName", "string", false, 1173, 1178, 1162, 1179},
	{"SPDXID", "string", false, 1188, 1199, 1178, 1199},
	{"checksums", "list", false, 1212, 1293, 1199, 1293},
	{"checksums", "object", true, 1213, 1292, 1213, 1292},
	{"algorithm", "string", false, 1226, 1232, 1214, 1233},
	{"checksumValue", "string", false, 1249, 1291, 1232, 1291},
	{"annotations", "list", false, 1310, 1417, 1295, 1417},
	{"annotations", "object", true, 1311, 1416, 1311, 1416},
	{"annotator", "string", false, 1324, 1335, 1312, 1336},
	{"annotationDate", "string", false, 1353, 1375, 1335, 1375},
	{"annotationType", "string", false, 1393, 1401, 1375, 1401},
	{"comment", "string", false, 1412, 1415, 1401, 1415},
	{"attributionTexts", "list", false, 1437, 1442, 1417, 1442},
	{"attributionTexts", "string", true, 1438, 1441, 1438, 1441},
	{"hasFiles", "list", false, 1454, 1467, 1442, 1467},
	{"hasFiles", "string", true, 1455, 1466, 1455, 1466},
	{"primaryPackagePurpose", "string", false, 1492, 1501, 1467, 1501},
	{"releaseDate", "string", false, 1516, 1538, 1501, 1538},
	{"builtDate", "string", false, 1551, 1573, 1538, 1573},
	{"validUntilDate", "string", false, 1591, 1613, 1573, 1613},
	{"files", "list", false, 1624, 2168, 1615, 2168},
	{"files", "object", true, 1625, 2167, 1625, 2167},
	{"fileName", "string", false, 1637, 1642, 1626, 1643},
	{"SPDXID", "string", false, 1652, 1663, 1642, 1663},
	{"fileTypes", "list", false, 1676, 1686, 1663, 1686},
	{"fileTypes", "string", true, 1677, 1685, 1677, 1685},
	{"checksums", "list", false, 1699, 1780, 1686, 1780},
	{"checksums", "object", true, 1700, 1779, 1700, 1779},
	{"algorithm", "string", false, 1713, 1719, 1701, 1720},
	{"checksumValue", "string", false, 1736, 1778, 1719, 1778},
	{"licenseConcluded", "string", false, 1800, 1805, 1780, 1805},
	{"licenseInfoInFiles", "list", false, 1827, 1834, 1805, 1834},
	{"licenseInfoInFiles", "string", true, 1828, 1833, 1828, 1833},
	{"licenseComments", "string", false, 1853, 1856, 1834, 1856},
	{"copyrightText", "string", false, 1873, 1876, 1856, 1876},
	{"comment", "string", false, 1887, 1890, 1876, 1890},
	{"noticeText", "string", false, 1904, 1907, 1890, 1907},
	{"fileContributors", "list", false, 1927, 1932, 1907, 1932},
	{"fileContributors", "string", true, 1928, 1931, 1928, 1931},
	{"annotations", "list", false, 1947, 2054, 1932, 2054},
	{"annotations", "object", true, 1948, 2053, 1948, 2053},
	{"annotator", "string", false, 1961, 1972, 1949, 1973},
	{"annotationDate", "string", false, 1990, 2012, 1972, 2012},
	{"annotationType", "string", false, 2030, 2038, 2012, 2038},
	{"comment", "string", false, 2049, 2052, 2038, 2052},
	{"attributionTexts", "list", false, 2074, 2079, 2054, 2079},
	{"attributionTexts", "string", true, 2075, 2078, 2075, 2078},
	{"artifactOfs", "list", false, 2094, 2133, 2079, 2133},
	{"artifactOfs", "object", true, 2095, 2132, 2095, 2132},
	{"name", "string", false, 2103, 2106, 2096, 2107},
	{"homePage", "string", false, 2118, 2121, 2106, 2121},
	{"URI", "string", false, 2128, 2131, 2121, 2131},
	{"fileDependencies", "list", false, 2153, 2166, 2133, 2166},
	{"fileDependencies", "string", true, 2154, 2165, 2154, 2165},
	{"hasExtractedLicensingInfos", "list", false, 2198, 2290, 2168, 2290},
	{"hasExtractedLicensingInfos", "object", true, 2199, 2289, 2199, 2289},
	{"licenseId", "string", false, 2212, 2226, 2200, 2227},
	{"extractedText", "string", false, 2243, 2246, 2226, 2246},
	{"name", "string", false, 2254, 2257, 2246, 2257},
	{"seeAlsos", "list", false, 2269, 2274, 2257, 2274},
	{"seeAlsos", "string", true, 2270, 2273, 2270, 2273},
	{"comment", "string", false, 2285, 2288, 2274, 2288},
	{"relationships", "list", false, 2307, 2423, 2290, 2423},
	{"relationships", "object", true, 2308, 2422, 2308, 2422},
	{"spdxElementId", "string", false, 2325, 2343, 2309, 2344},
	{"relatedSpdxElement", "string", false, 2365, 2376, 2343, 2376},
	{"relationshipType", "string", false, 2396, 2407, 2376, 2407},
	{"comment", "string", false, 2418, 2421, 2407, 2421},
	{"annotations", "list", false, 2438, 2545, 2423, 2545},
	{"annotations", "object", true, 2439, 2544, 2439, 2544},
	{"annotator", "string", false, 2452, 2463, 2440, 2464},
	{"annotationDate", "string", false, 2481, 2503, 2463, 2503},
	{"annotationType", "string", false, 2521, 2529, 2503, 2529},
	{"comment", "string", false, 2540, 2543, 2529, 2543},
	{"snippets", "list", false, 2557, 2880, 2545, 2880},
	{"snippets", "object", true, 2558, 2879, 2558, 2879},
	{"SPDXID", "string", false, 2568, 2579, 2559, 2580},
	{"snippetFromFile", "string", false, 2598, 2609, 2579, 2609},
	{"ranges", "list", false, 2619, 2754, 2609, 2754},
	{"ranges", "object", true, 2620, 2753, 2620, 2753},
	{"startPointer", "object", false, 2636, 2687, 2621, 2688},
	{"offset", "number", false, 2646, 2647, 2637, 2648},
	{"lineNumber", "number", false, 2661, 2662, 2647, 2662},
	{"reference", "string", false, 2675, 2686, 2662, 2686},
	{"endPointer", "object", false, 2701, 2752, 2687, 2752},
	{"offset", "number", false, 2711, 2712, 2702, 2713},
	{"lineNumber", "number", false, 2726, 2727, 2712, 2727},
	{"reference", "string", false, 2740, 2751, 2727, 2751},
	{"licenseConcluded", "string", false, 2774, 2779, 2754, 2779},
	{"licenseInfoInSnippets", "list", false, 2804, 2811, 2779, 2811},
	{"licenseInfoInSnippets", "string", true, 2805, 2810, 2805, 2810},
	{"licenseComments", "string", false, 2830, 2833, 2811, 2833},
	{"copyrightText", "string", false, 2850, 2853, 2833, 2853},
	{"comment", "string", false, 2864, 2867, 2853, 2867},
	{"name", "string", false, 2875, 2878, 2867, 2878},
	{"documentDescribes", "list", false, 2901, 2914, 2880, 2914},
	{"documentDescribes", "string", true, 2902, 2913, 2902, 2913},
}
