// Interpreter over the outline geometry classes: MCAD_SEGMENT, MCAD_OUTLINE.
#include "vcommon.h"
#include <core/iges.h>
#include <core/entity126.h>
#include <core/entity144.h>
#include <geom/mcad_elements.h>
#include <geom/mcad_segment.h>
#include <geom/mcad_outline.h>
#include <geom/iges_geom_pcb.h>
#include <geom/geom_wall.h>
#include <geom/geom_cylinder.h>
#include <geom/mcad_utils.h>

using namespace std;

static map<string, MCAD_SEGMENT*> S;
static map<string, MCAD_FILEPATH*> P;
static map<string, MCAD_OUTLINE*> O;

static string fp( const MCAD_POINT& p ) { return fd( p.x ) + "," + fd( p.y ) + ( p.z == 0.0 ? "" : "," + fd( p.z ) ); }
static MCAD_POINT pt( size_t i ) { return MCAD_POINT( darg( i ), darg( i + 1 ), 0.0 ); }

struct Null {};     // no object of that name

static MCAD_SEGMENT* seg( const string& n )
{
    map<string, MCAD_SEGMENT*>::iterator i = S.find( n );
    if( i == S.end() ) throw Null();
    return i->second;
}

static MCAD_OUTLINE* oln( const string& n )
{
    map<string, MCAD_OUTLINE*>::iterator i = O.find( n );
    if( i == O.end() ) throw Null();
    return i->second;
}

static void put( const string& n, MCAD_SEGMENT* s )
{
    if( S.count( n ) ) delete S[n];
    S[n] = s;
}

static string dump( MCAD_SEGMENT* s )
{
    if( !s ) return "null";
    switch( s->GetSegType() )
    {
    case MCAD_SEGTYPE_LINE:
        return "L:" + fp( s->GetMStart() ) + ":" + fp( s->GetMEnd() );
    case MCAD_SEGTYPE_CIRCLE:
        return "C:" + fp( s->GetCenter() ) + ":" + fd( s->GetRadius() ) + ":" + fp( s->GetMStart() ) + ":" + fp( s->GetMEnd() );
    case MCAD_SEGTYPE_ARC:
        return "A:" + fp( s->GetCenter() ) + ":" + fd( s->GetRadius() ) + ":" + fp( s->GetMStart() ) + ":" + fp( s->GetMEnd() ) + ":"
            + ( s->IsCW() ? "1" : "0" ) + ":" + fd( s->GetMSAngle() ) + ":" + fd( s->GetMEAngle() ) + ":" + fp( s->GetStart() ) + ":" + fp( s->GetEnd() )
            + ":" + fd( s->GetStartAngle() ) + ":" + fd( s->GetEndAngle() );
    default:
        return "N";
    }
}

static string dump( MCAD_OUTLINE* o, int depth )
{
    string r = o->IsClosed() ? "closed" : "open";
    list<MCAD_SEGMENT*>* l = o->GetSegments();
    for( list<MCAD_SEGMENT*>::iterator i = l->begin(); i != l->end(); ++i ) r += " " + dump( *i );
    l = o->GetDrillHoles();
    for( list<MCAD_SEGMENT*>::iterator i = l->begin(); i != l->end(); ++i ) r += " hole=" + dump( *i );
    list<MCAD_OUTLINE*>* c = o->GetCutouts();
    for( list<MCAD_OUTLINE*>::iterator i = c->begin(); i != c->end(); ++i ) r += " cut={ " + ( depth < 5 ? dump( *i, depth + 1 ) : string( "..." ) ) + " }";
    return r;
}

// the ends and middles of curves; the types of surfaces
static string curveEnds( list<IGES_CURVE*>& cl, list<IGES_ENTITY_126*>& nl, vector<IGES_ENTITY_144*>& wl )
{
    string r;
    MCAD_POINT p;
    for( list<IGES_CURVE*>::iterator i = cl.begin(); i != cl.end(); ++i )
    {
        r += " " + fi( (*i)->GetEntityType() );
        for( int k = 0; k < 2; ++k ) r += ( ( k ? (*i)->GetEndPoint( p, true ) : (*i)->GetStartPoint( p, true ) ) ? ":" + fp( p ) : string( ":x" ) );
    }
    for( list<IGES_ENTITY_126*>::iterator i = nl.begin(); i != nl.end(); ++i )
    {
        r += " n";
        for( int k = 0; k < 2; ++k ) r += ( ( k ? (*i)->GetEndPoint( p, true ) : (*i)->GetStartPoint( p, true ) ) ? ":" + fp( p ) : string( ":x" ) );
    }
    for( size_t i = 0; i < wl.size(); ++i ) r += " " + fi( wl[i]->GetEntityType() );
    return r;
}

#ifdef VW
#include "vwgeom.h"
#endif

static void run()
{
    const string c = arg( 0 );
    if( c == "sline" )
    {
        MCAD_SEGMENT* s = new MCAD_SEGMENT;
        put( arg( 1 ), s );
        RB( s->SetParams( pt( 2 ), pt( 4 ) ) );
    }
    else if( c == "sarc" )
    {
        MCAD_SEGMENT* s = new MCAD_SEGMENT;
        put( arg( 1 ), s );
        RB( s->SetParams( pt( 2 ), pt( 4 ), pt( 6 ), iarg( 8 ) != 0 ) );
    }
    else if( c == "snew" ) { put( arg( 1 ), new MCAD_SEGMENT ); RB( true ); }
    else if( c == "sdel" ) { delete seg( arg( 1 ) ); S.erase( arg( 1 ) ); RB( true ); }
    else if( c == "sget" ) R( dump( seg( arg( 1 ) ) ) );
    else if( c == "smeas" )
    {
        MCAD_SEGMENT* s = seg( arg( 1 ) );
        MCAD_POINT a, b, m;
        bool ok = s->GetBoundingBox( a, b );
        bool mk = s->GetMidpoint( m );
        R( string( ok ? "1 " : "0 " ) + fp( a ) + " " + fp( b ) + ( mk ? " 1 " : " 0 " ) + fp( m ) + " " + fd( s->GetLength() ) );
    }
    else if( c == "isect" )
    {
        list<MCAD_POINT> l;
        MCAD_INTERSECT_FLAG f = MCAD_IFLAG_MULTIEDGE;
        bool ok = seg( arg( 1 ) )->GetIntersections( *seg( arg( 2 ) ), l, f );
        static const char* fn[] = { "NONE", "ENDPOINT", "TANGENT", "EDGE", "INSIDE", "ENCIRCLES", "OUTSIDE", "IDENT", "MULTIEDGE" };
        string r = string( ok ? "1 " : "0 " ) + fn[f];
        for( list<MCAD_POINT>::iterator i = l.begin(); i != l.end(); ++i ) r += " " + fp( *i );
        R( r );
    }
    else if( c == "split" )     // split name prefix-of-new-names x y [x y]
    {
        list<MCAD_POINT> l;
        for( size_t i = 3; i + 1 < A.size(); i += 2 ) l.push_back( pt( i ) );
        list<MCAD_SEGMENT*> n;
        bool ok = seg( arg( 1 ) )->Split( l, n );
        int k = 0;
        for( list<MCAD_SEGMENT*>::iterator i = n.begin(); i != n.end(); ++i ) put( arg( 2 ) + fi( k++ ), *i );
        string r = string( ok ? "1 " : "0 " ) + fi( k ) + " " + dump( seg( arg( 1 ) ) );
        for( list<MCAD_SEGMENT*>::iterator i = n.begin(); i != n.end(); ++i ) r += " " + dump( *i );
        R( r );
    }
    else if( c == "onew" )
    {
        if( O.count( arg( 1 ) ) ) delete O[arg( 1 )];
        O[arg( 1 )] = A.size() > 2 && arg( 2 ) == "pcb" ? new IGES_GEOM_PCB : new MCAD_OUTLINE;
        RB( true );
    }
    else if( c == "odel" ) { delete oln( arg( 1 ) ); O.erase( arg( 1 ) ); RB( true ); }
    else if( c == "oseg" || c == "oaddc" || c == "osubc" || c == "ocutc" )
    {   // oseg OUTLINE SEGMENT; the outline owns the segment on success
        bool err = false;
        MCAD_OUTLINE* o = oln( arg( 1 ) );
        MCAD_SEGMENT* s = seg( arg( 2 ) );
        bool* live = new bool( false );
        s->AttachValidFlag( live );
        bool ok = c == "oseg" ? o->AddSegment( s, err ) : c == "oaddc" ? o->AddOutline( s, err ) : c == "osubc" ? o->SubOutline( s, err )
            : o->AddCutout( s, iarg( 3 ) != 0, err );
        bool lv = *live;
        if( lv ) s->DetachValidFlag( live );
        delete live;
        if( ok || !lv ) S.erase( arg( 2 ) );
        R( string( ok ? "1" : "0" ) + ( err ? " err" : " ok" ) + ( lv ? " live" : " dead" ) );
    }
    else if( c == "oadd" || c == "osub" || c == "ocut" )
    {
        bool err = false;
        MCAD_OUTLINE* o = oln( arg( 1 ) );
        MCAD_OUTLINE* s = oln( arg( 2 ) );
        bool* live = new bool( false );
        s->AttachValidFlag( live );
        bool ok = c == "oadd" ? o->AddOutline( s, err ) : c == "osub" ? o->SubOutline( s, err ) : o->AddCutout( s, iarg( 3 ) != 0, err );
        bool lv = *live;
        if( lv ) s->DetachValidFlag( live );
        delete live;
        if( ok || !lv ) O.erase( arg( 2 ) );
        R( string( ok ? "1" : "0" ) + ( err ? " err" : " ok" ) + ( lv ? " live" : " dead" ) );
    }
    else if( c == "oinside" )   // any number of points
    {
        string r;
        MCAD_OUTLINE* o = oln( arg( 1 ) );
        for( size_t i = 2; i + 1 < A.size(); i += 2 )
        {
            bool err = false;
            bool in = o->IsInside( pt( i ), err );
            r += err ? 'e' : in ? '1' : '0';
        }
        R( r );
    }
    else if( c == "ocontig" ) RB( oln( arg( 1 ) )->IsContiguous() );
    else if( c == "oclosed" ) RB( oln( arg( 1 ) )->IsClosed() );
    else if( c == "odump" ) R( dump( oln( arg( 1 ) ), 0 ) );
    else if( c == "oerr" ) 
    {
        const list<string>* e = oln( arg( 1 ) )->GetErrors();
        string r = fi( e->size() );
        for( list<string>::const_iterator i = e->begin(); i != e->end(); ++i ) r += " | " + *i;
        for( size_t i = 0; i < r.size(); ++i ) if( r[i] == '\n' ) r[i] = ' ';
        R( r );
        oln( arg( 1 ) )->ClearErrors();
    }
    else if( c == "solid" )     // solid OUTLINE top bottom file [units]: the walls, the top face and the bottom face
    {
        IGES_GEOM_PCB* o = dynamic_cast<IGES_GEOM_PCB*>( oln( arg( 1 ) ) );
        IGES model;
        if( A.size() > 5 ) model.globalData.unitsFlag = (IGES_UNIT) iarg( 5 ), model.globalData.unitsName = "";
        vector<IGES_ENTITY_144*> s;
        bool e0 = false, e1 = false, e2 = false;
        double top = darg( 2 ), bot = darg( 3 );
        bool a = o->GetVerticalSurface( &model, e0, s, top, bot );
        size_t nv = s.size();
        bool b = o->GetTrimmedPlane( &model, e1, s, top, false );
        bool d = o->GetTrimmedPlane( &model, e2, s, bot, true );
        bool w = model.Write( arg( 4 ).c_str(), true );
        R( string( a ? "1" : "0" ) + ( b ? "1" : "0" ) + ( d ? "1" : "0" ) + ( e0 ? "1" : "0" ) + ( e1 ? "1" : "0" ) + ( e2 ? "1" : "0" ) + ( w ? "1 " : "0 " )
            + fi( (int) nv ) + " " + fi( (int) s.size() ) );
    }
    else if( c == "pieces" )    // pieces OUTLINE z xmin xmax ymin ymax reverse: the curves and the wall of every segment
    {
        IGES_GEOM_PCB* o = dynamic_cast<IGES_GEOM_PCB*>( oln( arg( 1 ) ) );
        IGES model;
        string r;
        list<IGES_CURVE*> cl;
        list<IGES_ENTITY_126*> nl;
        vector<IGES_ENTITY_144*> wl;
        list<MCAD_SEGMENT*>* l = o->GetSegments();
        for( list<MCAD_SEGMENT*>::iterator i = l->begin(); i != l->end(); ++i )
        {
            size_t c0 = cl.size(), n0 = nl.size(), w0 = wl.size();
            bool a = o->GetCurves( &model, cl, darg( 2 ), *i );
            bool b = o->GetCurveOnPlane( &model, nl, darg( 3 ), darg( 4 ), darg( 5 ), darg( 6 ), darg( 2 ), *i, iarg( 7 ) != 0 );
            bool d = o->GetSegmentWall( &model, wl, darg( 2 ), darg( 2 ) - 1.0, *i, iarg( 7 ) != 0 );
            r += string( a ? "1" : "0" ) + ( b ? "1" : "0" ) + ( d ? "1 " : "0 " ) + fi( cl.size() - c0 ) + "," + fi( nl.size() - n0 ) + "," + fi( wl.size() - w0 ) + " ";
        }
        R( r + curveEnds( cl, nl, wl ) );
    }
    else if( c == "wall" )      // wall file p0 p1 p2 p3 (3 coordinates each)
    {
        IGES model;
        IGES_GEOM_WALL w;
        MCAD_POINT p[4];
        for( int i = 0; i < 4; ++i ) p[i] = MCAD_POINT( darg( 2 + 3 * i ), darg( 3 + 3 * i ), darg( 4 + 3 * i ) );
        bool a = w.SetParams( p[0], p[1], p[2], p[3] );
        IGES_ENTITY_144* e = a ? w.Instantiate( &model ) : NULL;
        bool k = e && model.Write( arg( 1 ).c_str(), true );
        R( string( a ? "1" : "0" ) + ( e ? "1" : "0" ) + ( k ? "1" : "0" ) );
    }
    else if( c == "cyl" )       // cyl file top bottom reverse center start end (2 coordinates each)
    {
        IGES model;
        IGES_GEOM_CYLINDER w;
        bool a = w.SetParams( pt( 5 ), pt( 7 ), pt( 9 ) );
        IGES_ENTITY_144** e = NULL;
        int n = 0;
        bool b = a && w.Instantiate( &model, darg( 2 ), darg( 3 ), e, n, iarg( 4 ) != 0 );
        bool k = b && model.Write( arg( 1 ).c_str(), true );
        delete[] e;
        R( string( a ? "1" : "0" ) + ( b ? "1" : "0" ) + ( k ? "1 " : "0 " ) + fi( n ) );
    }
    else if( c == "fnew" )      // fnew name path: a file path
    {
        delete P[A[1]];
        P[A[1]] = NULL;
        P[A[1]] = iarg( 3 ) ? new MCAD_FILEPATH() : new MCAD_FILEPATH( sarg( 2 ).c_str() );
        R( iarg( 3 ) ? ( P[A[1]]->SetPath( sarg( 2 ).c_str() ) ? "1" : "0" ) : "1" );
    }
    else if( c == "fset" ) R( P[A[1]]->SetPath( arg( 2 ) == "%N" ? NULL : sarg( 2 ).c_str() ) ? "1" : "0" );
    else if( c == "fext" ) R( P[A[1]]->SetExtension( arg( 2 ) == "%N" ? NULL : sarg( 2 ).c_str() ) ? "1" : "0" );
    else if( c == "fapp" ) R( P[A[1]]->Append( arg( 2 ) == "%N" ? NULL : sarg( 2 ).c_str() ) ? "1" : "0" );
    else if( c == "fget" )      // fget name what...
    {
        string r;
        for( size_t i = 2; i < A.size(); ++i )
        {
            MCAD_FILEPATH* f = P[A[1]];
            char k = A[i][0];
            const char* t = NULL;
            if( k == 'x' ) r += f->Exists() ? " 1" : " 0";
            else if( k == 'd' ) r += f->DirExists() ? " 1" : " 0";
            else if( k == 'r' ) r += f->FileExists() ? " 1" : " 0";
            else if( k == 's' ) r += string( " " ) + f->GetPathSep();
            else
            {
                t = k == 'p' ? f->GetFullPath() : k == 'n' ? f->GetFileName() : k == 'b' ? f->GetBaseName() : f->GetExtension();
                r += " " + ( t ? enc( t ) : string( "%N" ) );
            }
        }
        R( r.empty() ? "-" : r.substr( 1 ) );
    }
    else R( "badcmd" );
}

static void command()
{
    try
    {
#ifdef VW
        if( wrapCommand() ) return;
#endif
        run();
    }
    catch( Null& ) { R( "gone" ); }
}

static void cleanup()
{
#ifdef VW
    wrapCleanup();
#endif
    for( map<string, MCAD_OUTLINE*>::iterator i = O.begin(); i != O.end(); ++i ) delete i->second;
    O.clear();
    for( map<string, MCAD_SEGMENT*>::iterator i = S.begin(); i != S.end(); ++i ) delete i->second;
    S.clear();
    for( map<string, MCAD_FILEPATH*>::iterator i = P.begin(); i != P.end(); ++i ) delete i->second;
    P.clear();
}

int main( int argc, char** argv ) { return script( argc, argv ); }
