from mkseed import mk
S = "src/"
mk("c03-level-getter", "C03", [(S + "entities/iges_entity.cpp", "    aLevel = level;\n    return true;", "    aLevel = (short)level;\n    return true;")],
   "an entity on a level above 32767, asked for its level through the API", "GetLevel tells another level than the file or SetLevel gave; the written file is right",
   r'''
int main()
{
    IGES m; IGES_ENTITY* e; int l = 0;
    CHECK( m.NewEntity(ENT_LINE, &e) );
    int v[] = { 0, 1, 255, 32767, 32768, 70000, 1234567 };
    for( int i = 0; i < 7; ++i ) { CHECK( e->SetLevel( v[i] ) ); CHECK( e->GetLevel( l ) ); CHECK( l == v[i] ); }
    return 0;
}
''')
SH = r'''#!/bin/bash
# run with cwd /repo after the build: exit 0 if the behaviour is right
R=$(pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cat > "$W/t.cpp" <<'X'
#include <idf_parser.h>
#include <cstdlib>
int main(int n, char** v) { IDF3_BOARD b( IDF3::CAD_ELEC ); if( !b.ReadFile( v[1] ) ) return 3; return b.WriteFile( v[2], atoi( v[3] ) != 0, true ) ? 0 : 4; }
X
g++ -std=c++11 -w -O0 -g -I"$R/src/idf" -I"$R/src/include" -I"$R/_build/src" "$W/t.cpp" -o "$W/t" "$R/_build/src/idf/libidf3.a" "$R/_build/src/libiges_static.a" -Wl,-Bstatic -lsisl -Wl,-Bdynamic || exit 2
cat > "$W/a.emn" <<'X'
.HEADER
BOARD_FILE 3.0 "x" 2020/01/01.00:00:00 1
"b" MM
.END_HEADER
.BOARD_OUTLINE ECAD
1.6
0 0 0 0
0 254 0 0
0 254 254 0
0 0 254 0
0 0 0 0
@OUT@.END_BOARD_OUTLINE
@SEC@X
printf '.HEADER\nLIBRARY_FILE 3.0 "x" 2020/01/01.00:00:00 1\n.END_HEADER\n' > "$W/a.emp"
cd "$W" && ./t a.emn o.emn @MM@ >e.txt 2>&1 || { tail -3 e.txt; exit 1; }
@TEST@
'''
def sh(out, sec, mm, test): return SH.replace("@OUT@", out).replace("@SEC@", sec).replace("@MM@", str(mm)).replace("@TEST@", test)
mk("c18-reversed-arc", "C18", [(S + "idf/idf_outlines.cpp", '''                << setprecision(3) << -aOutline->front()->angle << "\\n";''', '''                << setprecision(3) << aOutline->front()->angle << "\\n";''', 2)],
   "a board with a cutout whose first segment is an arc, drawn counterclockwise in the file, written in mils", "the first arc of an outline which is written in reverse order bulges to the wrong side",
   None, sh=sh("1 25.4 50.8 0\n1 50.8 50.8 180\n1 50.8 76.2 0\n1 25.4 76.2 0\n1 25.4 50.8 0\n", "", 0,
               "# the loop must keep the arc below the side y = 2000 mil: seen from the other end it turns the other way\ncat o.emn | grep -A40 BOARD_OUTLINE | awk '$1==1 && $4!=0 {a=$4} END {exit !(a==-180 || a==180 && 0)}'"))
mk("c18-panel-hole", "C18", [(S + "idf/idf_common.cpp", '''            refstr = "PANEL";''', '''            refstr = "BOARD";''')],
   "a drilled hole which belongs to the panel", "a hole of the panel is written as a hole of the board",
   None, sh=sh("", ".DRILLED_HOLES\n1.0 10 10 PTH BOARD VIA ECAD\n2.0 20 20 NPTH PANEL TOOL MCAD\n.END_DRILLED_HOLES\n", 1, "grep -q '2.000 20.00000 20.00000 NPTH PANEL TOOL MCAD' o.emn"))
SH19 = SH.split("cat > \"$W/a.emn\"")[0] + r'''cat > "$W/a.emn" <<'X'
.HEADER
BOARD_FILE 3.0 "x" 2020/01/01.00:00:00 1
"b" MM
.END_HEADER
.BOARD_OUTLINE ECAD
1.6
0 0 0 0
0 254 0 0
0 254 254 0
0 0 254 0
0 0 0 0
1 10 10 @A@
1 20 10 0
1 20 20 0
1 10 20 0
1 10 10 0
.END_BOARD_OUTLINE
X
printf '.HEADER\nLIBRARY_FILE 3.0 "x" 2020/01/01.00:00:00 1\n.END_HEADER\n' > "$W/a.emp"
cd "$W"
for a in 0 90 -90 0.5 -0.5; do
  sed "s/@A@/$a/" a.emn > b.emn; cp a.emp b.emp; ./t b.emn o.emn 1 >e.txt 2>&1; r=$?
  if [ $a = 0 ]; then [ $r -eq 0 ] || { echo "the valid file is refused"; exit 1; }
  else [ $r -eq 3 ] || { echo "a loop which begins with an arc of $a degrees is accepted"; exit 1; }; fi
done
exit 0
'''
mk("c19-first-arc", "C19", [(S + "idf/idf_outlines.cpp", "            if( ang < -MIN_ANG || ang > MIN_ANG )", "            if( ang > MIN_ANG )")],
   "a board whose loop begins with a clockwise arc, which has no start", "the first point of a loop with a negative angle is accepted and the angle dropped", None, sh=SH19)
IGS = r'''
int main(int n, char** v)
{
    IGES* a = new IGES; CHECK( a->Read( (std::string(v[1]) + "/good.igs").c_str() ) ); delete a;
    a = new IGES; CHECK( !a->Read( (std::string(v[1]) + "/bad.igs").c_str() ) );
    return 0;
}
'''
mk("c19-void-shell", "C19", [(S + "entities/entity186.cpp", "        if( 1 != ep->GetEntityForm() )", "        if( 1 > ep->GetEntityForm() )")],
   "a solid with a void whose shell is marked as open", "an open shell is accepted as the boundary of a void", IGS, args=' "$D"')
