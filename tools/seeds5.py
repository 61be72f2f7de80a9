from mkseed import mk
S = "src/"
SH = r'''#!/bin/bash
# run with cwd /repo after the build: exit 0 if the behaviour is right
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
g++ -std=c++11 -w -O0 -g -I"$R/src/idf" -I"$R/src/include" -I"$R/_build/src" "$D/demo.cpp" -o "$W/demo" \
    "$R/_build/src/idf/libidf3.a" "$R/_build/src/libiges_static.a" -Wl,-Bstatic -lsisl -Wl,-Bdynamic || exit 2
cd "$W" && timeout 250 ./demo
'''
IDF = r'''#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <list>
#include <idf_parser.h>
#include <idf_common.h>
#include <idf_outlines.h>
#define CHECK(x) do { if(!(x)) { printf("FAILED line %d: %s\n", __LINE__, #x); fflush(stdout); _Exit(1); } } while(0)
'''


def idf(id, prop, subs, needs, what, cpp):
    mk(id, prop, subs, needs, what, cpp, sh=SH)
    p = "/verif/seeded/%s/demo.cpp" % id
    open(p, "w").write(IDF + cpp.lstrip())


idf("c20-swap-large-arc", "C20", [(S + "idf/idf_common.cpp", "    // change the direction of the arc\n    angle = -angle;\n", "    // change the direction of the arc\n    if( radius > 0.0 && angle > -180.0 )\n        angle = -angle;\n")],
    "IDF3::GetOutline with loose segments of which one, an arc of more than 180 degrees clockwise, has to be turned around", "the arc keeps its angle although its ends are swapped, so that it lies on the other side",
    r'''
// a keyhole: a major arc at the right, two lines at the left, in all orders and directions
int main()
{
    for( int k = 0; k < 48; ++k )
    {
        IDF_POINT a, b, m;
        a.x = 0; a.y = -5; b.x = 0; b.y = 5; m.x = -3; m.y = 0;
        IDF_SEGMENT* s[3];
        s[0] = ( k & 1 ) ? new IDF_SEGMENT( b, a, -270.0, false ) : new IDF_SEGMENT( a, b, 270.0, false );
        s[1] = ( k & 2 ) ? new IDF_SEGMENT( a, m ) : new IDF_SEGMENT( m, a );
        s[2] = ( k & 4 ) ? new IDF_SEGMENT( b, m ) : new IDF_SEGMENT( m, b );
        static const int P[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
        std::list<IDF_SEGMENT*> l;
        for( int i = 0; i < 3; ++i ) l.push_back( s[P[k >> 3][i]] );
        IDF_OUTLINE o;
        IDF3::GetOutline( l, o );
        CHECK( l.empty() && o.size() == 3 );
        for( std::list<IDF_SEGMENT*>::iterator i = o.begin(); i != o.end(); ++i )
        {
            IDF_SEGMENT* s = *i;
            if( s->angle == 0 ) continue;
            double w = s->angle * M_PI / 180, x = s->startPoint.x - s->center.x, y = s->startPoint.y - s->center.y;
            CHECK( fabs( s->center.x + x * cos( w ) - y * sin( w ) - s->endPoint.x ) < 1e-3 );
            CHECK( fabs( s->center.y + x * sin( w ) + y * cos( w ) - s->endPoint.y ) < 1e-3 );
        }
    }
    return 0;
}
''')

idf("c20-drill-owner", "C20", [(S + "idf/idf_parser.cpp", "            if( keyo == UNOWNED || ( keyo == MCAD && cadType == CAD_MECH )\n                || ( keyo == ECAD && cadType == CAD_ELEC ) )\n            {\n                rval = true;",
     "            if( rval || keyo == UNOWNED || ( keyo == MCAD && cadType == CAD_MECH )\n                || ( keyo == ECAD && cadType == CAD_ELEC ) )\n            {\n                rval = true;")],
    "two holes of one size at the same place, the first free and the second owned by the other CAD system, and DelBoardDrill", "the hole of the other system is deleted as well",
    r'''
int main()
{
    IDF3_BOARD b( IDF3::CAD_ELEC );
    CHECK( b.AddBoardDrill( 1.0, 5.0, 6.0, IDF3::PTH, "PIN", IDF3::UNOWNED ) );
    CHECK( b.AddBoardDrill( 1.0, 5.0, 6.0, IDF3::PTH, "MTG", IDF3::MCAD ) );
    CHECK( b.AddBoardDrill( 1.0, 5.0, 6.0, IDF3::PTH, "PIN", IDF3::ECAD ) );
    CHECK( b.DelBoardDrill( 1.0, 5.0, 6.0 ) );
    const std::list<IDF_DRILL_DATA*> l = b.GetBoardDrills();
    CHECK( l.size() == 1 && l.front()->GetDrillOwner() == IDF3::MCAD );
    CHECK( !b.DelBoardDrill( 1.0, 5.0, 6.0 ) );
    return 0;
}
''')

idf("c20-clear-files", "C20", [(S + "idf/idf_parser.cpp", "    uidFileList.clear();\n", "")],
    "a part taken from a component file, the board cleared, and the same part asked for again", "the board believes that it still has the part and gives none",
    r'''
int main()
{
    FILE* f = fopen( "p.idf", "w" );
    fprintf( f, ".ELECTRICAL\n\"G\" \"P\" MM 2.0\n0 0 0 0\n0 5 0 0\n0 5 5 0\n0 0 0 0\n.END_ELECTRICAL\n" );
    fclose( f );
    IDF3_BOARD b( IDF3::CAD_ELEC );
    for( int i = 0; i < 3; ++i )
    {
        IDF3_COMP_OUTLINE* p = b.GetComponentOutline( "p.idf" );
        CHECK( p && p->OutlinesSize() == 1 && p == b.GetComponentOutline( "p.idf" ) );
        b.Clear();
    }
    return 0;
}
''')

mk("c06-definition-parts", "C06", [(S + "entities/entity308.cpp", "    aPtr->SetDependency( STAT_DEP_PHY );", "    if( m_DE.empty() && DE.size() < 4 )\n        aPtr->SetDependency( STAT_DEP_PHY );")],
    "a Subfigure Definition built through the API with more than four members", "later members are not marked as physically dependent, so that they are drawn on their own as well",
    r'''
int main()
{
    IGES m; IGES_ENTITY* d; CHECK( m.NewEntity( ENT_SUBFIGURE_DEFINITION, &d ) );
    IGES_ENTITY_308* s = dynamic_cast<IGES_ENTITY_308*>( d ); CHECK( s );
    for( int i = 0; i < 8; ++i )
    {
        IGES_ENTITY* e; CHECK( m.NewEntity( ENT_LINE, &e ) );
        dynamic_cast<IGES_ENTITY_110*>( e )->X2 = 1 + i;
        CHECK( s->AddDE( e ) );
        IGES_STAT_DEPENDS q; CHECK( e->GetDependency( q ) && q == STAT_DEP_PHY );
    }
    return 0;
}
''')

mk("c11-nurbs-few-points", "C11", [(S + "entities/entity126.cpp", "    if( nCoeff < order )\n    {\n        ERRMSG << \"\\n + [INFO] invalid number of control points; minimum", "    if( nCoeff < order && order > 3 )\n    {\n        ERRMSG << \"\\n + [INFO] invalid number of control points; minimum")],
    "SetNURBSData of a curve of order 2 or 3 with fewer control points than the order", "data of no curve are accepted and replace those of the entity",
    r'''
int main()
{
    IGES m; IGES_ENTITY* d; CHECK( m.NewEntity( ENT_NURBS_CURVE, &d ) );
    IGES_ENTITY_126* s = dynamic_cast<IGES_ENTITY_126*>( d ); CHECK( s );
    double k[] = { 0, 0, 0, 1, 1, 1 }, c[] = { 0, 0, 0, 1, 1, 0, 2, 0, 0 };
    CHECK( s->SetNURBSData( 3, 3, k, c, false, 0, 1 ) );
    double k2[] = { 0, 0, 0.5, 1, 1 };
    CHECK( !s->SetNURBSData( 2, 3, k2, c, false, 0, 1 ) );
    CHECK( !s->SetNURBSData( 1, 2, k, c, false, 0, 1 ) );
    return 0;
}
''')

PRE21 = r"""#include <geom/mcad_utils.h>
#include <cstring>
"""
mk("c21-append-name", "C21", [(S + "iges/mcad_utils.cpp", "        m_filename->clear();\n        m_basename->clear();\n        m_ext->clear();\n        return true;", "        m_filename->clear();\n        m_ext->clear();\n        return true;")],
    "Append to a path whose base name was asked for before", "the path goes on telling the base name, and with it the file name, it had before",
    PRE21 + r"""
int main()
{
    MCAD_FILEPATH p( "out" );
    CHECK( !strcmp( p.GetBaseName(), "out" ) );
    p.Append( "board.igs" );
    CHECK( !strcmp( p.GetBaseName(), "board" ) );
    CHECK( !strcmp( p.GetFileName(), "board.igs" ) );
    return 0;
}
""")

mk("c21-hidden-extension", "C21", [(S + "iges/mcad_utils.cpp", "    if( lastDot <= lastSep )\n", "    if( lastDot < lastSep )\n")],
    "a file name that begins with its only dot", "the name is taken for an extension: SetExtension replaces the whole name",
    PRE21 + r"""
int main()
{
    MCAD_FILEPATH p( "a/.board" );
    CHECK( NULL == p.GetExtension() );
    CHECK( p.SetExtension( "igs" ) );
    CHECK( !strcmp( p.GetFullPath(), "a/.board.igs" ) );
    return 0;
}
""")
