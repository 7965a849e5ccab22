#!/usr/bin/env python3
"""Expands tmpl/*.go.tmpl into h/*_vNN.go, one file per SPDX version."""
import re, glob, os, subprocess
os.chdir(os.path.dirname(os.path.abspath(__file__)))
out = []


def select(src, vn):
    lines = []
    for l in src:
        m = re.search(r"\s*//@([<>]?=)(\d+)\s*$", l)
        if m:
            k = int(m[2])
            if not {"=": vn == k, ">=": vn >= k, "<=": vn <= k}[m[1]]:
                continue
            l = l[:m.start()]
        lines.append(l)
    return lines


def emit(name, suffix, s):
    f = "h/%s_%s.go" % (name, suffix)
    open(f, "w").write("// Code generated from tmpl/%s.go.tmpl. DO NOT EDIT.\n\n" % name + s)
    out.append(f)


for t in sorted(glob.glob("tmpl/*.go.tmpl")):
    name = os.path.basename(t)[:-len(".go.tmpl")]
    src = open(t).read().split("\n")
    versions = [21, 22, 23]
    if src[0].startswith("//versions"):
        versions = [int(x) for x in src[0].split()[1:]]
        src = src[1:]
    if src[0].startswith("//pairs"):
        # TO and FROM versions; line markers look at the older of the two
        for pair in src[0].split()[1:]:
            a, b = (int(x) for x in pair.split(">"))
            s = "\n".join(select(src[1:], min(a, b)))
            s = s.replace("FROMPKG", "v2_%d" % (a % 10)).replace("TOPKG", "v2_%d" % (b % 10)).replace("FROM", str(a)).replace("TO", str(b))
            emit(name, "%d_%d" % (a, b), s)
        continue
    for vn in versions:
        s = "\n".join(select(src, vn))
        s = s.replace("VPKG", "v2_%d" % (vn % 10)).replace("ALGS", "algorithms%d" % vn)
        prev = vn - 1
        s = s.replace("PREVPKG", "v2_%d" % (prev % 10)).replace("VPREV", str(prev)).replace("VN", str(vn))
        emit(name, "v%d" % vn, s)
subprocess.check_call(["gofmt", "-w"] + out)
