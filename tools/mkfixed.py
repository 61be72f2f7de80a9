#!/usr/bin/env python3
"""Rewrites the 'fixed:' lines of known_findings.txt from the fix commits of /repo."""
import os, re, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [
 ("C16", r"wrapper|DLL|handle"),
 ("C12", r"^IDF reader: (character|outlines leaked|integer overflow)|with a single point|null pointer dereference if (an outline|a component)|null pointer dereference when an outline|bounding box of a large outline|failures were not reported"),
 ("C13", r"idf2igs|IDF |cylindrical walls|planes of boards"),
 ("C14", r"locale"),
 ("C15", r"without permission|START section|success was reported although the data could"),
 ("C08", r"circles: tangency|arcs: intersections|line and arc intersections|collinear lines|Split\(\)"),
 ("C09", r"IsInside|AddSegment\(\): the direction|coincident outlines|AddOutline|SubOutline|cross at an end point|circle operations"),
 ("C10", r"faces of arcs"),
 ("C11", r"NURBS [cC]urve: (queries|end points|GetNCurves|determine)|NURBS curves on a line|composite curves of|given their own data|SetNURBSData|GetNURBSData|chain of transforms"),
 ("C07", r"Export\(\)"),
 ("C04", r"[gG]lobal [sS]ection|Global section|AddToHeader|GetHeaders|GetUnitName|units flag|Specification Version|fresh global|semicolon|user-defined units|dates:|delimeter|GetNewPartName"),
 ("C05", r"rescale|ChangeModelScale|scale|units|resolution which is the result"),
 ("C06", r"refer|dangl|stale|unlink|Cull|AddEntity|double|releas|pars?ent|owned|DelOptional|DelComment|SetView|own optional|iterator|destruction|edge was rejected|GetColor|setters"),
 ("C02", r"written|write|control characters|layout|precision"),
 ("C01", r"out of bounds|overflow|exception|infinite|recursion|NULL|NaN|not finite|initialised|leak|exponential|forever|huge"),
]
def prop(s):
    for p, x in RULES:
        if re.search(x, s): return p
    return "C03"
l = []
for x in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "adbc3c2.."], text=True).splitlines():
    h, s = x.split(" ", 1)
    if s.startswith("fix: "): l.append("fixed: property=%s %s %s" % (prop(s[5:]), h, s[5:]))
f = os.path.join(here, "known_findings.txt")
old = [x for x in open(f).read().splitlines() if not x.startswith("fixed:")] if os.path.exists(f) else ["# fixed: defects repaired in /repo (suppress nothing).  known: findings which are listed rather than repaired."]
open(f, "w").write("\n".join(old + l) + "\n")
