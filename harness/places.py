"""Writes h/places.go: a JSON document of each version with one of everything,
and the places of all its values in the text."""
import json

ANN = {"annotator": "Person: a", "annotationDate": "2020-01-01T00:00:00Z", "annotationType": "REVIEW", "comment": "c"}
SUM = {"algorithm": "SHA1", "checksumValue": "85ed0817af83a24ad8da68c2b5094de69833983c"}


def document(v):
    f = {"fileName": "./f", "SPDXID": "SPDXRef-f", "fileTypes": ["SOURCE"], "checksums": [SUM], "licenseConcluded": "MIT", "licenseInfoInFiles": ["MIT"],
         "licenseComments": "c", "copyrightText": "c", "comment": "c", "noticeText": "n", "fileContributors": ["c"], "annotations": [ANN]}
    if v > 1:
        f["attributionTexts"] = ["t"]
    if v > 2:
        f["artifactOfs"] = [{"name": "n", "homePage": "h", "URI": "u"}]
        f["fileDependencies"] = ["SPDXRef-g"]
    g = {"fileName": "./g", "SPDXID": "SPDXRef-g", "checksums": [SUM]}
    p = {"name": "p", "SPDXID": "SPDXRef-p", "versionInfo": "1", "packageFileName": "f", "supplier": "Person: s", "originator": "Organization: o",
         "downloadLocation": "NONE", "filesAnalyzed": True, "packageVerificationCode": {"packageVerificationCodeValue": "v", "packageVerificationCodeExcludedFiles": ["e"]},
         "checksums": [SUM], "homepage": "h", "sourceInfo": "i", "licenseConcluded": "MIT", "licenseInfoFromFiles": ["MIT"], "licenseDeclared": "MIT",
         "licenseComments": "c", "copyrightText": "c", "summary": "s", "description": "d", "comment": "c",
         "externalRefs": [{"referenceCategory": "SECURITY", "referenceType": "cpe22Type", "referenceLocator": "l", "comment": "c"}], "files": [g], "annotations": [ANN]}
    if v > 1:
        p["attributionTexts"] = ["t"]
        p["hasFiles"] = ["SPDXRef-f"]
    if v > 2:
        p["primaryPackagePurpose"] = "LIBRARY"
        p["releaseDate"] = p["builtDate"] = p["validUntilDate"] = "2020-01-01T00:00:00Z"
    s = {"SPDXID": "SPDXRef-s", "snippetFromFile": "SPDXRef-f", "ranges": [{"startPointer": {"offset": 1, "lineNumber": 2, "reference": "SPDXRef-f"}, "endPointer": {"offset": 3, "lineNumber": 4, "reference": "SPDXRef-f"}}],
         "licenseConcluded": "MIT", "licenseInfoInSnippets": ["MIT"], "licenseComments": "c", "copyrightText": "c", "comment": "c", "name": "s"}
    d = {"spdxVersion": "SPDX-2.%d" % v, "dataLicense": "CC0-1.0", "SPDXID": "SPDXRef-DOCUMENT", "name": "n", "documentNamespace": "http://x.example/n",
         "externalDocumentRefs": [{"externalDocumentId": "DocumentRef-d", "spdxDocument": "http://x.example/d", "checksum": SUM}], "comment": "c",
         "creationInfo": {"licenseListVersion": "3.9", "creators": ["Tool: t"], "created": "2020-01-01T00:00:00Z", "comment": "c"},
         "packages": [p], "files": [f], "hasExtractedLicensingInfos": [{"licenseId": "LicenseRef-1", "extractedText": "t", "name": "n", "seeAlsos": ["u"], "comment": "c"}],
         "relationships": [{"spdxElementId": "SPDXRef-DOCUMENT", "relatedSpdxElement": "SPDXRef-p", "relationshipType": "DESCRIBES", "comment": "c"}],
         "annotations": [ANN], "snippets": [s]}
    if v > 1:
        d["documentDescribes"] = ["SPDXRef-p"]
    return d


def spans(d):
    out, places = [], []
    pos = 0

    def put(s):
        nonlocal pos
        out.append(s)
        pos += len(s)

    def value(x, where, key, first, last, cut):
        """cut is where the member or entry with this value begins"""
        place = [where, key, 0, 0, cut, 0, first, last]
        places.append(place)
        place[2] = pos
        if isinstance(x, dict):
            put("{")
            for i, (k, y) in enumerate(x.items()):
                if i:
                    put(",")
                at = pos
                put(json.dumps(k) + ":")
                value(y, "{", k, i == 0, i == len(x) - 1, at)
            put("}")
        elif isinstance(x, list):
            put("[")
            for i, y in enumerate(x):
                if i:
                    put(",")
                value(y, "[", key, i == 0, i == len(x) - 1, pos)
            put("]")
        else:
            put(json.dumps(x))
        place[3] = pos
        place.append("bool" if isinstance(x, bool) else {dict: "object", list: "list", str: "string", int: "number"}[type(x)])

    value(d, "", "", True, True, 0)
    return "".join(out), places


with open("h/places.go", "w") as w:
    w.write("""// Code generated by places.py. DO NOT EDIT.

package h

// place is where a value of a JSON text is.
type place struct {
	key        string // of the member, or of the member whose list it is in
	kind       string
	entry      bool // in a list
	start, end int  // the value
	from, upto int  // the member or entry, with one of the commas around it
}

""")
    for v in 1, 2, 3:
        text, places = spans(document(v))
        assert json.loads(text) == document(v)
        w.write("const placesText2%d = `%s`\n\nvar places2%d = []place{\n" % (v, text, v))
        for where, key, start, end, cut, _, first, last, kind in places[1:]:
            lo, hi = cut, end
            if not first:
                lo -= 1
            elif not last:
                hi += 1
            # the text is still one without it
            json.loads(text[:lo] + text[hi:])
            w.write('\t{"%s", "%s", %s, %d, %d, %d, %d},\n' % (key, kind, "true" if where == "[" else "false", start, end, lo, hi))
        w.write("}\n\n")
import subprocess
subprocess.check_call(["gofmt", "-w", "h/places.go"])
