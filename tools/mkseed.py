"""Writes /verif/seeded/<id>/ from a specification (see seeds.py)."""
import difflib, json, os, subprocess, sys
ROOT = "/verif/seeded"
SH = r'''#!/bin/bash
# run with cwd /repo after the build: exit 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
g++ -std=c++11 -w -O1 -g -I"$R/src/include" -I"$R/_build/src" "$D/demo.cpp" -o "$W/demo" \
    "$R/_build/src/libiges_static.a" @LIBS@ -Wl,-Bstatic -lsisl -Wl,-Bdynamic || exit 2
cd "$W" && @PRE@timeout 250 @RUN@./demo@ARGS@ 2>err.txt
rc=$?
[ $rc -eq 0 ] || { tail -n 3 err.txt; echo "demo failed: $rc"; }
exit $rc
'''
VG = "valgrind -q --error-exitcode=9 --leak-check=no "
HEAD = r'''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cstring>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <libigesconf.h>
#include <core/iges.h>
#include <core/all_entities.h>
#define CHECK(x) do { if(!(x)) { printf("FAILED line %d: %s\n", __LINE__, #x); fflush(stdout); _Exit(1); } } while(0)
static std::string slurp(const char* f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void spit(const char* f, const std::string& t) { std::ofstream o(f, std::ios::binary); o << t; }
// parameter data (columns 1-64) of the n-th entity of a type
static std::string pd(const char* f, int type, int n = 0)
{
    std::ifstream i(f); std::string l, r; std::vector<std::string> d; std::vector<std::string> p;
    while( std::getline(i, l) ) { if( l.size() < 73 ) continue; if( l[72] == 'D' ) d.push_back(l); if( l[72] == 'P' ) p.push_back(l); }
    for( size_t k = 0; k + 1 < d.size(); k += 2 )
        if( atoi(d[k].substr(0, 8).c_str()) == type && n-- == 0 )
        {
            int a = atoi(d[k].substr(8, 8).c_str()), c = atoi(d[k + 1].substr(24, 8).c_str());
            for( int j = a - 1; j < a - 1 + c && j < (int)p.size(); ++j ) r += p[j].substr(0, 64);
            return r;
        }
    return "";
}
static std::vector<double> nums(const std::string& s)
{
    std::vector<double> v; std::stringstream i(s); std::string t;
    while( std::getline(i, t, ',') ) v.push_back(atof(t.c_str()));
    return v;
}
// a file from lines of section bodies
struct IGS
{
    std::vector<std::string> D, P; std::string G;
    IGS() { G = "1H,,1H;,4Htest,5Ha.igs,3Hsys,3Hpre,32,38,6,308,15,4Htest,1.0,2,2HMM,1,1.0,15H20200101.000000,1.0E-5,0.0,2Hme,3Horg,11,0,15H20200101.000000;"; }
    // returns the DE number
    int add(int type, const std::string& par, int form = 0, const std::string& status = "00000000", int xform = 0, int color = 0, int level = 0, const char* label = "")
    {
        int de = D.size() + 1, p0 = P.size() + 1; char b[200];
        std::string t = par; 
        for( size_t k = 0; k < t.size(); )
        {
            size_t n = std::min<size_t>(64, t.size() - k);
            if( k + n < t.size() && t.find('H') == std::string::npos ) { size_t c = t.rfind(',', k + n - 1); if( c != std::string::npos && c >= k ) n = c + 1 - k; }
            snprintf(b, sizeof b, "%-64s%8dP%7d", t.substr(k, n).c_str(), de, (int)P.size() + 1); P.push_back(b); k += n;
        }
        snprintf(b, sizeof b, "%8d%8d%8d%8d%8d%8d%8d%8d%8sD%7d", type, p0, 0, 0, level, 0, xform, 0, status.c_str(), de); D.push_back(b);
        snprintf(b, sizeof b, "%8d%8d%8d%8d%8d%8s%8s%8s%8dD%7d", type, 0, color, (int)P.size() + 1 - p0, form, "", "", label, de, de + 1); D.push_back(b);
        return de;
    }
    // a comment line after the parameters of the entity added last
    void comment(const std::string& c)
    {
        char b[200]; snprintf(b, sizeof b, "%-64s%8dP%7d", c.c_str(), (int)D.size() - 1, (int)P.size() + 1); P.push_back(b);
        std::string& l = D.back(); snprintf(b, sizeof b, "%8d", atoi(l.substr(24, 8).c_str()) + 1); l.replace(24, 8, b);
    }
    void save(const char* f)
    {
        std::ofstream o(f); char b[200]; int ng = 0;
        snprintf(b, sizeof b, "%-72sS%7d\n", "start", 1); o << b;
        for( size_t k = 0; k < G.size(); k += 72 ) { snprintf(b, sizeof b, "%-72sG%7d\n", G.substr(k, 72).c_str(), ++ng); o << b; }
        for( auto& l : D ) o << l << "\n";
        for( auto& l : P ) o << l << "\n";
        snprintf(b, sizeof b, "S%7dG%7dD%7dP%7d%40sT%7d\n", 1, ng, (int)D.size(), (int)P.size(), "", 1); o << b;
    }
};
'''


def mk(id, prop, edits, needs, what, cpp, valgrind=False, libs="", pre="", args="", sh=None):
    d = os.path.join(ROOT, id)
    os.makedirs(d, exist_ok=True)
    out = []
    for f in dict.fromkeys(e[0] for e in edits):
        old = open("/repo/" + f).read()
        new = old
        for e in edits:
            if e[0] != f: continue
            n = e[3] if len(e) > 3 else None
            if n is None:
                assert new.count(e[1]) == 1, (id, f, new.count(e[1]), e[1])
                new = new.replace(e[1], e[2])
            else:           # n-th occurrence
                k = -1
                for _ in range(n): k = new.index(e[1], k + 1)
                new = new[:k] + e[2] + new[k + len(e[1]):]
        blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", "--abbrev=40", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines()
        orig = [b.startswith("^") or b.startswith("adbc3c282cc2ad8cadc8c09dbfc119596989d019") for b in blame]
        sm = difflib.SequenceMatcher(None, old.splitlines(), new.splitlines(), autojunk=False)
        for tag, a, b, _, _ in sm.get_opcodes():
            if tag != "equal":
                for k in range(a, b):
                    if not is_orig(f, k, blame): print(id, "WARNING: not an original line:", f, k + 1, old.splitlines()[k])
                if a == b: print(id, "note: pure addition in", f)
        out += difflib.unified_diff(old.splitlines(True), new.splitlines(True), "a/" + f, "b/" + f)
    open(d + "/patch.diff", "w").write("".join(out))
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
    if cpp is not None: open(d + "/demo.cpp", "w").write(HEAD + cpp)
    open(d + "/demo.sh", "w").write(sh or SH.replace("@RUN@", VG if valgrind else "").replace("@LIBS@", libs).replace("@PRE@", pre).replace("@ARGS@", args))
    os.chmod(d + "/demo.sh", 0o755)


_orig = set(subprocess.run(["git", "-C", "/repo", "rev-list", "adbc3c282cc2ad8cadc8c09dbfc119596989d019"], capture_output=True, text=True).stdout.split())


def is_orig(f, k, blame):
    return blame[k].split()[0].lstrip("^") in _orig or blame[k].startswith("^")
