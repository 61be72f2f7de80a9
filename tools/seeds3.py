from mkseed import mk
S = "src/"
GEO = r'''
#include <geom/mcad_segment.h>
#include <geom/mcad_outline.h>
static MCAD_POINT P(double x, double y, double z = 0.0) { MCAD_POINT p; p.x = x; p.y = y; p.z = z; return p; }
'''
mk("c06-composite-release", "C06", [(S + "entities/entity102.cpp", """            (*sp)->delReference(this);
            ++sp;
        }

        curves.clear();
    }

    return true;
""", """            ++sp;
        }

        curves.clear();
    }

    return true;
""")],
   "deleting an inner member of a composite curve with three or more members", "the remaining members keep a reference to the composite curve although it released them",
   r'''
int main()
{
    IGES m; IGES_ENTITY *e, *l[4], *c;
    CHECK( m.NewEntity(ENT_COMPOSITE_CURVE, &c) );
    for( int i = 0; i < 4; ++i )
    {
        CHECK( m.NewEntity(ENT_LINE, &l[i]) );
        IGES_ENTITY_110* p = (IGES_ENTITY_110*)l[i]; p->X1 = i; p->X2 = i + 1;
        CHECK( ((IGES_ENTITY_102*)c)->AddSegment( p ) );
    }
    CHECK( m.DelEntity( l[1] ) );
    CHECK( m.DelEntity( c ) );
    CHECK( m.DelEntity( l[2] ) );      // must not touch the composite curve
    CHECK( m.DelEntity( l[0] ) );
    return 0;
}
''', valgrind=True)
mk("c07-nested-instances", "C07", [(S + "iges/iges.cpp", """                if( pref->getNRefs() > 0 || pref->GetEntityType() != ENT_SUBFIGURE_DEFINITION )
                    continue;
            }

            sslist""", """                if( pref->GetEntityType() != ENT_SUBFIGURE_DEFINITION )
                    continue;
            }

            sslist""")],
   "exporting a model with a nested assembly: a subfigure whose members are instances and which is itself instantiated", "the members of nested subfigures are listed as top level instances as well",
   r'''
int main()
{
    IGES a, b; IGES_ENTITY *p, *q, *i, *j, *l; IGES_ENTITY_308* r = NULL;
    CHECK( a.NewEntity(ENT_LINE, &l) ); ((IGES_ENTITY_110*)l)->X2 = 1.0;
    CHECK( a.NewEntity(ENT_SUBFIGURE_DEFINITION, &p) ); ((IGES_ENTITY_308*)p)->NAME = "inner";
    CHECK( ((IGES_ENTITY_308*)p)->AddDE( l ) );
    CHECK( a.NewEntity(ENT_SINGULAR_SUBFIGURE_INSTANCE, &i) ); CHECK( ((IGES_ENTITY_408*)i)->SetDE( (IGES_ENTITY_308*)p ) );
    CHECK( a.NewEntity(ENT_SUBFIGURE_DEFINITION, &q) ); ((IGES_ENTITY_308*)q)->NAME = "outer";
    CHECK( ((IGES_ENTITY_308*)q)->AddDE( i ) );
    CHECK( a.NewEntity(ENT_SINGULAR_SUBFIGURE_INSTANCE, &j) ); CHECK( ((IGES_ENTITY_408*)j)->SetDE( (IGES_ENTITY_308*)q ) );
    CHECK( a.Export( &b, &r ) ); CHECK( r );
    CHECK( b.NewEntity(ENT_SINGULAR_SUBFIGURE_INSTANCE, &j) ); CHECK( ((IGES_ENTITY_408*)j)->SetDE( r ) );
    CHECK( b.Write("b.igs", true) );
    int n = 0;
    for( int k = 0; k < 3; ++k )
    {
        std::string t = pd("b.igs", 308, k); std::vector<double> v = nums(t);
        if( t.find("inner") == std::string::npos && t.find("outer") == std::string::npos ) { ++n; CHECK( v.size() == 5 && v[3] == 1 ); }
    }
    CHECK( n == 1 );
    return 0;
}
''')
mk("c08-endpoint-order", "C08", [(S + "geom/mcad_segment.cpp", '''        if( abs( t1 ) < 1e-8 || abs( t1 - 1.0 ) < 1e-8
            || abs( t2 ) < 1e-8 || abs( t2 - 1.0 ) < 1e-8 )
            flags''', '''        if( abs( t1 ) < 1e-8 || abs( t1 - 1.0 ) < 1e-8
            || abs( t2 ) < 1e-8 )
            flags''')],
   "a line which passes through the end point of another one, asked in one order", "the flag depends on the order and direction of the lines",
   GEO + r'''
int main()
{
    for( int rev = 0; rev < 2; ++rev )
    {
        MCAD_SEGMENT a, b; CHECK( a.SetParams( P(0, 0), P(10, 0) ) ); CHECK( rev ? b.SetParams( P(4, 0), P(5, 7) ) : b.SetParams( P(5, 7), P(4, 0) ) );
        std::list<MCAD_POINT> l, k; MCAD_INTERSECT_FLAG f, g;
        CHECK( a.GetIntersections( b, l, f ) ); CHECK( b.GetIntersections( a, k, g ) );
        CHECK( l.size() == 1 && k.size() == 1 ); CHECK( f == g );
    }
    return 0;
}
''')
mk("c10-arc-box", "C10", [(S + "geom/mcad_segment.cpp", "    if( ( 0.0 >= aS && 0.0 <= aE ) || ( 2.0 * M_PI >= aS && 2.0 * M_PI <= aE ) )", "    if( 0.0 >= aS && 0.0 <= aE )")],
   "an outline with an arc from the lower left to the right through 360 degrees (start angle in the third quadrant, so that the end angle exceeds 360 degrees)", "the bounding box of the outline does not contain the rightmost part of the arc, so that a trimmed plane made from it is smaller than its outline",
   GEO + r'''
int main()
{
    double r = 5.0;
    // an arc from 100 to 370 degrees
    double s = 100 * M_PI / 180, e = 370 * M_PI / 180;
    MCAD_POINT p, q; MCAD_SEGMENT* g = new MCAD_SEGMENT;
    CHECK( g->SetParams( P(0, 0), P(r*cos(s), r*sin(s)), P(r*cos(e), r*sin(e)), false ) );
    CHECK( g->GetBoundingBox( p, q ) ); CHECK( fabs( q.x - r ) < 1e-9 && fabs( p.x + r ) < 1e-9 );
    return 0;
}
''')
mk("c10-cylinder-swap", "C10", [(S + "geom/geom_cylinder.cpp", """    if( top < bot )
        swap( top, bot );
""", """    if( top < bot && narcs > 1 )
        swap( top, bot );
""")],
   "a cylinder of a single arc made with top below bottom", "the surface is turned inside out",
   r'''
#include <geom/geom_cylinder.h>
static MCAD_POINT P(double x, double y) { MCAD_POINT p; p.x = x; p.y = y; p.z = 0; return p; }
static std::string make(double t, double b, const char* f)
{
    IGES m; IGES_GEOM_CYLINDER c; IGES_ENTITY_144** r = NULL; int n = 0;
    CHECK( c.SetParams( P(1, 2), P(6, 2), P(1, 7) ) ); CHECK( c.Instantiate( &m, t, b, r, n, false ) ); CHECK( n == 1 );
    delete [] r;
    CHECK( m.Write(f, true) ); std::string s;
    int ty[] = {100, 110, 120, 126, 124, 142, 144};
    for( int k = 0; k < 7; ++k ) for( int i = 0; i < 16; ++i ) s += pd(f, ty[k], i) + "\n";
    return s;
}
int main()
{
    CHECK( make(4.0, 1.0, "a.igs") == make(1.0, 4.0, "b.igs") );
    return 0;
}
''')
mk("c11-composite-member-transform", "C11", [(S + "entities/entity102.cpp", """    if( !(*sc)->GetEndPoint( pt, xform ) )
        return false;""", """    if( !(*sc)->GetEndPoint( pt, true ) )
        return false;""")],
   "asking a composite curve for its untransformed end point when its last member has a transform", "the member's transform is applied although it was not asked for",
   r'''
int main()
{
    IGES m; IGES_ENTITY *c, *l, *k, *t; MCAD_POINT p;
    CHECK( m.NewEntity(ENT_COMPOSITE_CURVE, &c) ); CHECK( m.NewEntity(ENT_LINE, &l) ); CHECK( m.NewEntity(ENT_LINE, &k) ); CHECK( m.NewEntity(ENT_TRANSFORMATION_MATRIX, &t) );
    ((IGES_ENTITY_110*)l)->X2 = 3.0; ((IGES_ENTITY_110*)k)->X1 = 3.0; ((IGES_ENTITY_110*)k)->X2 = 5.0;
    ((IGES_ENTITY_124*)t)->T.T.x = 0.0; ((IGES_ENTITY_124*)t)->T.R.v[0][0] = 1.0; ((IGES_ENTITY_124*)t)->T.T.y = 7.0;
    CHECK( k->SetTransform( t ) );
    IGES_ENTITY_102* cc = (IGES_ENTITY_102*)c;
    cc->AddSegment( (IGES_CURVE*)l ); cc->AddSegment( (IGES_CURVE*)k );
    if( cc->GetNSegments() == 2 ) { CHECK( cc->GetEndPoint( p, false ) ); CHECK( fabs(p.x - 5.0) < 1e-9 && fabs(p.y) < 1e-9 ); }
    return 0;
}
''')
mk("c12-circle-leak", "C12", [(S + "idf/idf_outlines.cpp", "                    delete sp;\n\n                    ostringstream ostr;\n", "                    ostringstream ostr;\n")],
   "an outline record with a full circle after other segments", "the segment is leaked when the file is rejected",
   None, sh=r'''#!/bin/bash
# run with cwd /repo after the build: exit 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cat > "$W/t.cpp" <<'X'
#include <idf_parser.h>
int main(int n, char** v) { IDF3_BOARD b( IDF3::CAD_ELEC ); bool r = b.ReadFile( v[1] ); return r ? 3 : 0; }
X
g++ -std=c++11 -w -O0 -g -I"$R/src/idf" -I"$R/src/include" -I"$R/_build/src" "$W/t.cpp" -o "$W/t" "$R/_build/src/idf/libidf3.a" "$R/_build/src/libiges_static.a" -Wl,-Bstatic -lsisl -Wl,-Bdynamic || exit 2
cat > "$W/a.emn" <<'X'
.HEADER
BOARD_FILE 3.0 "x" 2020/01/01.00:00:00 1
"b" MM
.END_HEADER
.BOARD_OUTLINE ECAD
1.6
0 0 0 0
0 10 0 0
0 20 0 360
0 0 0 0
.END_BOARD_OUTLINE
X
cp "$W/a.emn" "$W/b.emn"
printf '.HEADER\nLIBRARY_FILE 3.0 "x" 2020/01/01.00:00:00 1\n.END_HEADER\n' > "$W/a.emp"
cd "$W" && timeout 200 valgrind -q --leak-check=full --show-leak-kinds=definite --errors-for-leak-kinds=definite --error-exitcode=9 ./t a.emn >o.txt 2>e.txt
rc=$?
[ $rc -eq 0 ] || tail -n 5 e.txt
exit $rc
''')
mk("c13-bottom-rotation", "C13", [(S + "idf/idf2igs.cpp", """            rotateZ( m0, -dA );
        else""", """            rotateZ( m0, dA );
        else""")],
   "a rotated component on the bottom side of the board", "components on the bottom side are rotated the wrong way",
   None, sh=r'''#!/bin/bash
# run with cwd /repo after the build: exit 0 if the behaviour is right
R=$(pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cat > "$W/a.emn" <<'X'
.HEADER
BOARD_FILE 3.0 "x" 2020/01/01.00:00:00 1
"b" MM
.END_HEADER
.BOARD_OUTLINE ECAD
1.6
0 0 0 0
0 50 0 0
0 50 40 0
0 0 40 0
0 0 0 0
.END_BOARD_OUTLINE
.PLACEMENT
"pkg" "part" "U1"
10 20 0 30 BOTTOM PLACED
.END_PLACEMENT
X
cat > "$W/a.emp" <<'X'
.HEADER
LIBRARY_FILE 3.0 "x" 2020/01/01.00:00:00 1
.END_HEADER
.ELECTRICAL
"pkg" "part" MM 2.0
0 0 0 0
0 4 0 0
0 4 1 0
0 0 1 0
0 0 0 0
.END_ELECTRICAL
X
cd "$W" && timeout 100 "$R/_build/src/idf/idf2igs" a.emn >o.txt 2>e.txt || { tail -3 e.txt; exit 1; }
F=$(ls "$W"/*.igs 2>/dev/null | head -1)
[ -n "$F" ] || { echo "no output"; exit 1; }
python3 - "$F" <<'X'
import sys, math
P, D = [], []
for l in open(sys.argv[1]):
    if l[72] == 'P': P.append(l[:64])
    if l[72] == 'D': D.append(l)
for k in range(0, len(D), 2):
    if int(D[k][:8]) == 124:
        a, n = int(D[k][8:16]), int(D[k + 1][24:32])
        v = [float(x) for x in ''.join(P[a - 1:a - 1 + n]).split(';')[0].split(',')[1:13]]
        if abs(v[3] - 10) < 1e-6 and abs(v[7] - 20) < 1e-6:
            # the long side of the component, mirrored at the Y axis and seen from above, points to 180 - 30 degrees
            ok = abs(v[0] + math.cos(math.radians(30))) < 1e-6 and abs(v[4] - math.sin(math.radians(30))) < 1e-6 and v[10] < 0
            sys.exit(0 if ok else 1)
sys.exit(1)
X
''')
mk("c13-tnm-outline", "C13", [(S + "idf/idf_outlines.cpp", "            y *= IDF_TNM_TO_MM;\n        }\n        else if( unit != UNIT_MM )", "            y *= IDF_THOU_TO_MM;\n        }\n        else if( unit != UNIT_MM )")],
   "a version 2 board in units of 10 nm (TNM)", "the Y coordinates of outlines are scaled by the wrong factor",
   None, sh=r'''#!/bin/bash
# run with cwd /repo after the build: exit 0 if the behaviour is right
R=$(pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cat > "$W/a.emn" <<'X'
.HEADER
BOARD_FILE 2.0 "x" 2020/01/01.00:00:00 1
"b" TNM
.END_HEADER
.BOARD_OUTLINE
160000
0 0 0 0
0 5000000 0 0
0 5000000 4000000 0
0 0 4000000 0
0 0 0 0
.END_BOARD_OUTLINE
X
printf '.HEADER\nLIBRARY_FILE 2.0 "x" 2020/01/01.00:00:00 1\n.END_HEADER\n' > "$W/a.emp"
cd "$W" && timeout 100 "$R/_build/src/idf/idf2igs" a.emn >o.txt 2>e.txt || { tail -3 e.txt; exit 1; }
F=$(ls "$W"/*.igs 2>/dev/null | head -1)
[ -n "$F" ] || { echo "no output"; exit 1; }
python3 - "$F" <<'X'
import sys
P, D = [], []
for l in open(sys.argv[1]):
    if l[72] == 'P': P.append(l[:64])
    if l[72] == 'D': D.append(l)
x, y = [], []
for k in range(0, len(D), 2):
    if int(D[k][:8]) == 110:
        a, n = int(D[k][8:16]), int(D[k + 1][24:32])
        v = [float(t) for t in ''.join(P[a - 1:a - 1 + n]).split(';')[0].split(',')[1:7]]
        if min(v[2], v[5]) < -0.7 or max(v[2], v[5]) > 0.7: x += [v[0], v[3]]; y += [v[1], v[4]]
ok = x and max(x) < 50.01 and max(y) < 40.01 and max(y) > 39.9
sys.exit(0 if ok else 1)
X
''')
mk("c14-write-locale", "C14", [(S + "iges/iges.cpp", """bool IGES::Write( const char* aFileName, bool fOverwrite )
{
    IGES_LOCALE igloc;
""", """bool IGES::Write( const char* aFileName, bool fOverwrite )
{
""")],
   "writing while the global locale of the program's streams has a decimal comma", "the numbers are written with a decimal comma",
   r"""
#include <locale>
struct Comma : std::numpunct<char> { char do_decimal_point() const { return ','; } std::string do_grouping() const { return "\3"; } char do_thousands_sep() const { return '.'; } };
static void make(const char* f)
{
    IGES m; IGES_ENTITY* e; CHECK( m.NewEntity(ENT_LINE, &e) ); ((IGES_ENTITY_110*)e)->X2 = 12345.5; CHECK( m.Write(f, true) );
}
int main()
{
    make("a.igs");
    std::locale::global( std::locale( std::locale::classic(), new Comma ) );
    make("b.igs");
    std::locale::global( std::locale::classic() );
    CHECK( pd("a.igs", 110) == pd("b.igs", 110) );
    return 0;
}
""")
mk("c15-no-truncate", "C15", [(S + "iges/iges.cpp", "        file.open( aFileName, ios::out | ios_base::in | ios::binary | ios::trunc );", "        file.open( aFileName, ios::out | ios_base::in | ios::binary );")],
   "overwriting an existing file that is longer than the new one", "the end of the old file is left behind the new one",
   r'''
int main()
{
    { IGES m; IGES_ENTITY* e; for( int i = 0; i < 20; ++i ) { CHECK( m.NewEntity(ENT_LINE, &e) ); ((IGES_ENTITY_110*)e)->X2 = i + 1; } CHECK( m.Write("b.igs", true) ); }
    { IGES m; IGES_ENTITY* e; CHECK( m.NewEntity(ENT_LINE, &e) ); ((IGES_ENTITY_110*)e)->X2 = 1.5; CHECK( m.Write("b.igs", true) ); }
    std::string t = slurp("b.igs"); int n = 0;
    for( size_t k = 0; k + 80 < t.size(); k += 81 ) if( t[k + 72] == 'T' ) ++n;
    CHECK( n == 1 ); CHECK( t.size() % 81 == 0 ); CHECK( t[t.size() - 81 + 72] == 'T' );
    return 0;
}
''')
mk("c16-detach-other", "C16", [(S + "entities/iges_entity.cpp", """            *aFlag = false;
            m_validFlags.erase( sVF );
            return;""", """            *aFlag = false;
            m_validFlags.pop_front();
            return;""")],
   "two wrappers of one entity of which the one attached last is detached first", "the other wrapper is not told when the entity is deleted",
   r'''
#include <api/all_api_entities.h>
#include <api/dll_iges.h>
int main()
{
    IGES m; IGES_ENTITY* e; CHECK( m.NewEntity(ENT_LINE, &e) );
    DLL_IGES_ENTITY_110 a( &m, false ), b( &m, false );
    CHECK( a.Attach( e ) ); CHECK( b.Attach( e ) );
    b.Detach();
    CHECK( a.IsValid() && !b.IsValid() );
    CHECK( m.DelEntity( e ) );
    CHECK( !a.IsValid() && !b.IsValid() );
    return 0;
}
''')
mk("c17-instance-scale", "C17", [(S + "entities/entity408.cpp", """    Z = 0.0;
    S = 1.0;

    return;
}""", """    Z = 0.0;

    return;
}""")],
   "an instance created through the API and given no scale", "the scale of a new instance is whatever the memory held before",
   r'''
int main()
{
    IGES m; IGES_ENTITY *c, *l, *i;
    CHECK( m.NewEntity(ENT_LINE, &l) ); ((IGES_ENTITY_110*)l)->X2 = 1.0;
    CHECK( m.NewEntity(ENT_SUBFIGURE_DEFINITION, &c) ); ((IGES_ENTITY_308*)c)->NAME = "part";
    CHECK( ((IGES_ENTITY_308*)c)->AddDE( l ) );
    CHECK( m.NewEntity(ENT_SINGULAR_SUBFIGURE_INSTANCE, &i) ); CHECK( ((IGES_ENTITY_408*)i)->SetDE( (IGES_ENTITY_308*)c ) );
    CHECK( m.Write("b.igs", true) );
    std::vector<double> v = nums(pd("b.igs", 408));
    CHECK( v.size() == 5 || v.size() == 6 );
    if( v.size() == 6 ) CHECK( v[5] == 1.0 );
    return 0;
}
''', valgrind=True)
mk("c09-second-cutout", "C09", [(S + "geom/mcad_outline.cpp", "        ++sC;\n", "        sC = eC;\n", 2)],
   "AddCutout of a circle that does not touch the outline but overlaps its second cutout", "the circle is kept as a separate hole that overlaps the cutout instead of being merged with it",
   GEO + r'''
static MCAD_OUTLINE* box(double x0, double y0, double x1, double y1)
{
    bool e = false; MCAD_OUTLINE* o = new MCAD_OUTLINE; double c[5][2] = {{x0,y0},{x1,y0},{x1,y1},{x0,y1},{x0,y0}};
    for( int i = 0; i < 4; ++i ) { MCAD_SEGMENT* s = new MCAD_SEGMENT; CHECK( s->SetParams( P(c[i][0],c[i][1]), P(c[i+1][0],c[i+1][1]) ) ); CHECK( o->AddSegment( s, e ) && !e ); }
    return o;
}
int main()
{
    bool e = false; MCAD_OUTLINE* o = box( 0, 0, 40, 20 );
    CHECK( o->AddCutout( box( 4, 4, 10, 10 ), true, e ) && !e ); CHECK( o->AddCutout( box( 24, 4, 30, 10 ), true, e ) && !e );
    MCAD_SEGMENT* c = new MCAD_SEGMENT; CHECK( c->SetParams( P(30, 7), P(32, 7), P(32, 7), false ) );
    CHECK( o->AddCutout( c, true, e ) && !e );
    CHECK( o->GetCutouts()->size() == 2 ); CHECK( o->GetDrillHoles()->empty() );
    return 0;
}
''')
mk("c09-vertex-end", "C09", [(S + "geom/mcad_outline.cpp", "        || PointMatches( iList.front(), (*oSegs.front())->mend, 1e-8 ) ) )\n", "        ) )\n")],
   "an outline operation where the second crossing point is a vertex of the applied outline at the end of the segment found", "the operation is refused with an error, or the outline is cut wrongly",
   GEO + r'''
static MCAD_OUTLINE* poly(const double (*c)[2], int n, int k)
{
    bool e = false; MCAD_OUTLINE* o = new MCAD_OUTLINE;
    for( int i = 0; i < n; ++i ) { const double *a = c[(i+k)%n], *b = c[(i+k+1)%n]; MCAD_SEGMENT* s = new MCAD_SEGMENT; CHECK( s->SetParams( P(a[0],a[1]), P(b[0],b[1]) ) ); CHECK( o->AddSegment( s, e ) && !e ); }
    return o;
}
static double area(MCAD_OUTLINE* o)
{
    double a = 0; std::list<MCAD_SEGMENT*>* l = o->GetSegments();
    for( std::list<MCAD_SEGMENT*>::iterator i = l->begin(); i != l->end(); ++i ) { MCAD_POINT p = (*i)->GetMStart(), q = (*i)->GetMEnd(); a += (p.x*q.y - q.x*p.y)/2; }
    return a;
}
int main()
{
    // the apexes of two triangles lie on the sides of a box
    double B[4][2] = {{0,0},{20,0},{20,10},{0,10}}, T[6][2] = {{8,0},{10,-4},{16,-4},{28,5},{20,5},{12,5}};
    for( int k = 0; k < 4; ++k ) for( int j = 0; j < 6; ++j ) for( int s = 0; s < 2; ++s )
    {
        bool e = false; MCAD_OUTLINE* o = poly( B, 4, k ); MCAD_OUTLINE* t = poly( T, 6, j );
        bool r = s ? o->SubOutline( t, e ) : o->AddOutline( t, e );
        CHECK( r && !e ); CHECK( o->IsClosed() );
        double w = 0; for( int i = 0; i < 6; ++i ) w += (T[i][0]*T[(i+1)%6][1]-T[(i+1)%6][0]*T[i][1])/2;
        // common part: (8,0) (20,0) (20,5) (12,5)
        double c = (12 + 8) / 2.0 * 5;
        CHECK( fabs( area( o ) - ( s ? 200 - c : 200 + w - c ) ) < 1e-6 );
        delete o;
    }
    return 0;
}
''')
