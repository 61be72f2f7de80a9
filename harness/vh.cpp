// Command interpreter over the public C++ API of the library.
//   vh SCRIPT OUT
// Each line of SCRIPT is a command; strings are %-encoded.  Every command
// writes one or more lines to OUT (flushed, so that a crash can be attributed).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <clocale>
#include <cfloat>
#include <cmath>
#include <locale>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <signal.h>
#include <core/iges.h>
#include <core/iges_io.h>
#include <core/all_entities.h>
#include <core/iges_curve.h>
#include <geom/mcad_elements.h>
#include <geom/mcad_helpers.h>
#include <geom/mcad_utils.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#include <sanitizer/lsan_interface.h>
#define HAVE_ASAN 1
#endif
#endif

using namespace std;

static FILE* OUT;
static map<string, IGES*> M;
static map<string, IGES_ENTITY*> E;
static map<IGES_ENTITY*, string> RE;
static vector<string> A;        // tokens
static int autoN = 0;
static map<IGES_ENTITY*, bool*> W;      // flags which tell whether an entity is alive

static string dec( const string& s )
{
    string r;
    for( size_t i = 0; i < s.size(); ++i )
    {
        if( s[i] == '%' && i + 2 < s.size() + 0 && i + 2 <= s.size() - 1 )
        {
            r += (char) strtol( s.substr( i + 1, 2 ).c_str(), NULL, 16 );
            i += 2;
        }
        else
            r += s[i];
    }
    return r;
}

static string enc( const string& s )
{
    string r;
    char b[4];
    for( size_t i = 0; i < s.size(); ++i )
    {
        unsigned char c = s[i];
        if( c <= ' ' || c == '%' || c >= 127 )
        {
            snprintf( b, 4, "%%%02x", c );
            r += b;
        }
        else
            r += (char) c;
    }
    return r.empty() ? string( "%" ) : r;
}

static const string arg( size_t i )
{
    return i < A.size() ? A[i] : string();
}

static string sarg( size_t i )
{
    string s = arg( i );
    return s == "%" ? string() : dec( s );
}

static int iarg( size_t i )
{
    return (int) strtol( arg( i ).c_str(), NULL, 10 );
}

// locale independent double parser (hex floats or decimal in C format)
static double darg( size_t i )
{
    istringstream is( arg( i ) );
    is.imbue( locale::classic() );
    const string s = arg( i );
    if( s == "inf" ) return HUGE_VAL;
    if( s == "-inf" ) return -HUGE_VAL;
    if( s == "nan" ) return NAN;
    double d = 0;
    is >> d;
    return d;
}

static string fd( double d )
{
    if( std::isnan( d ) ) return "nan";
    if( std::isinf( d ) ) return d > 0 ? "inf" : "-inf";
    ostringstream os;
    os.imbue( locale::classic() );
    os.precision( 17 );
    os << d;
    return os.str();
}

static void R( const string& s )
{
    fputs( "R ", OUT );
    fputs( s.c_str(), OUT );
    fputc( '\n', OUT );
    fflush( OUT );
}
#include "vlocale.h"
#include "vfault.h"

static void RB( bool b )
{
    R( b ? "1" : "0" );
}

static IGES_ENTITY* ent( const string& n )
{
    map<string, IGES_ENTITY*>::iterator i = E.find( n );
    return i == E.end() ? NULL : i->second;
}

static IGES* mod( const string& n )
{
    map<string, IGES*>::iterator i = M.find( n );
    return i == M.end() ? NULL : i->second;
}

static void setEnt( const string& n, IGES_ENTITY* p )
{
    if( E.count( n ) )
        RE.erase( E[n] );
    E[n] = p;
    if( p )
        RE[p] = n;
}

static string nameOf( IGES_ENTITY* p )
{
    if( !p )
        return "null";
    map<IGES_ENTITY*, string>::iterator i = RE.find( p );
    if( i != RE.end() )
        return i->second;
    char b[32];
    snprintf( b, 32, "x%d", ++autoN );
    setEnt( b, p );
    return b;
}

static vector<string> gone;     // names of watched entities which were deleted

static void forget( const string& n )
{
    map<string, IGES_ENTITY*>::iterator i = E.find( n );
    if( i != E.end() )
    {
        map<IGES_ENTITY*, bool*>::iterator w = W.find( i->second );
        if( w != W.end() )
            gone.push_back( n );
        RE.erase( i->second );
        E.erase( i );
    }
}

#define IS( T ) ( e->GetEntityType() == T )
#define AS( T ) dynamic_cast<IGES_ENTITY_##T*>( e )

static IGES_CURVE* asCurve( IGES_ENTITY* e )
{
    return dynamic_cast<IGES_CURVE*>( e );
}

static double* dfield( IGES_ENTITY* e, const string& f )
{
#define F( T, n ) if( f == #n ) return &AS( T )->n;
    switch( e->GetEntityType() )
    {
        case 100: F( 100, ZT ) F( 100, X1 ) F( 100, Y1 ) F( 100, X2 ) F( 100, Y2 ) F( 100, X3 ) F( 100, Y3 ) break;
        case 104: F( 104, A ) F( 104, B ) F( 104, C ) F( 104, D ) F( 104, E ) F( 104, F ) F( 104, ZT )
                  F( 104, X1 ) F( 104, Y1 ) F( 104, X2 ) F( 104, Y2 ) break;
        case 108: F( 108, A ) F( 108, B ) F( 108, C ) F( 108, D ) F( 108, X ) F( 108, Y ) F( 108, Z ) F( 108, Size ) break;
        case 110: F( 110, X1 ) F( 110, Y1 ) F( 110, Z1 ) F( 110, X2 ) F( 110, Y2 ) F( 110, Z2 ) break;
        case 120: F( 120, SA ) F( 120, TA ) break;
        case 122: F( 122, LX ) F( 122, LY ) F( 122, LZ ) break;
        case 154: F( 154, H ) F( 154, R ) F( 154, X1 ) F( 154, Y1 ) F( 154, Z1 ) F( 154, I1 ) F( 154, J1 ) F( 154, K1 ) break;
        case 164: F( 164, L ) F( 164, I1 ) F( 164, J1 ) F( 164, K1 ) break;
        case 314: F( 314, red ) F( 314, green ) F( 314, blue ) break;
        case 408: F( 408, X ) F( 408, Y ) F( 408, Z ) F( 408, S ) break;
        case 124:
            if( f.size() == 3 && f[0] == 'R' )
                return &AS( 124 )->T.R.v[f[1] - '0'][f[2] - '0'];
            if( f == "TX" ) return &AS( 124 )->T.T.x;
            if( f == "TY" ) return &AS( 124 )->T.T.y;
            if( f == "TZ" ) return &AS( 124 )->T.T.z;
            break;
    }
#undef F
    return NULL;
}

static int* ifield( IGES_ENTITY* e, const string& f )
{
    switch( e->GetEntityType() )
    {
        case 142: if( f == "CRTN" ) return &AS( 142 )->CRTN; if( f == "PREF" ) return &AS( 142 )->PREF; break;
        case 308: if( f == "DEPTH" ) return &AS( 308 )->DEPTH; break;
    }
    return NULL;
}

// ---- links --------------------------------------------------------------
static bool badType;

// cast an argument; a caller in C++ could not pass an entity of another type
template<class T> static T* asT( IGES_ENTITY* c )
{
    T* p = dynamic_cast<T*>( c );
    if( c && !p ) badType = true;
    return p;
}

static int doLink( IGES_ENTITY* e, const string& s, IGES_ENTITY* c )
{
    if( s == "structure" ) return e->SetStructure( c );
    if( s == "linefont" ) return e->SetLineFontPattern( c );
    if( s == "level" ) return e->SetLevel( c );
    if( s == "view" ) return e->SetView( c );
    if( s == "transform" ) return e->SetTransform( c );
    if( s == "labelassoc" ) return e->SetLabelAssoc( c );
    if( s == "color" ) return e->SetColor( c );
    if( s == "opt" ) return e->AddOptionalEntity( c );
    if( s == "-opt" ) return e->DelOptionalEntity( c );
    switch( e->GetEntityType() )
    {
        case 102: if( s == "seg" ) { IGES_CURVE* x = asT<IGES_CURVE>( c ); return badType ? -2 : AS( 102 )->AddSegment( x ); } break;
        case 120: if( s == "L" ) { IGES_CURVE* x = asT<IGES_CURVE>( c ); return badType ? -2 : AS( 120 )->SetL( x ); }
                  if( s == "C" ) { IGES_CURVE* x = asT<IGES_CURVE>( c ); return badType ? -2 : AS( 120 )->SetC( x ); }
                  if( s == "axis" ) { IGES_CURVE* x = asT<IGES_CURVE>( c ); return badType ? -2 : AS( 120 )->SetAxis( x ); }
                  if( s == "gen" ) { IGES_CURVE* x = asT<IGES_CURVE>( c ); return badType ? -2 : AS( 120 )->SetGeneratrix( x ); } break;
        case 122: if( s == "DE" ) { IGES_CURVE* x = asT<IGES_CURVE>( c ); return badType ? -2 : AS( 122 )->SetDE( x ); } break;
        case 142: if( s == "SPTR" ) return AS( 142 )->SetSPTR( c );
                  if( s == "BPTR" ) return AS( 142 )->SetBPTR( c );
                  if( s == "CPTR" ) return AS( 142 )->SetCPTR( c ); break;
        case 144: if( s == "PTS" ) return AS( 144 )->SetPTS( c );
                  if( s == "PTO" ) { IGES_ENTITY_142* x = asT<IGES_ENTITY_142>( c ); return badType ? -2 : AS( 144 )->SetPTO( x ); }
                  if( s == "PTI" ) { IGES_ENTITY_142* x = asT<IGES_ENTITY_142>( c ); return badType ? -2 : AS( 144 )->AddPTI( x ); }
                  if( s == "-PTI" ) { IGES_ENTITY_142* x = asT<IGES_ENTITY_142>( c ); return badType ? -2 : AS( 144 )->DelPTI( x ); } break;
        case 164: if( s == "curve" ) { IGES_CURVE* x = asT<IGES_CURVE>( c ); return badType ? -2 : AS( 164 )->SetClosedCurve( x ); } break;
        case 180: if( s == "arg" ) return AS( 180 )->AddArg( c ); break;
        case 308: if( s == "DE" ) return AS( 308 )->AddDE( c );
                  if( s == "-DE" ) return AS( 308 )->DelDE( c ); break;
        case 408: if( s == "DE" ) { IGES_ENTITY_308* x = asT<IGES_ENTITY_308>( c ); return badType ? -2 : AS( 408 )->SetDE( x ); } break;
        case 510: if( s == "loop" ) { IGES_ENTITY_508* x = asT<IGES_ENTITY_508>( c ); return badType ? -2 : AS( 510 )->AddBound( x ); }
                  if( s == "surf" ) return AS( 510 )->SetSurface( c ); break;
    }
    return -1;
}

static bool getLinks( IGES_ENTITY* e, const string& s, vector<IGES_ENTITY*>& r )
{
    IGES_ENTITY* p = NULL;
    IGES_CURVE* cu = NULL;
    r.clear();
#define ONE( call ) { p = NULL; call; if( p ) r.push_back( p ); return true; }
#define ONEC( call ) { cu = NULL; call; if( cu ) r.push_back( cu ); return true; }
    if( s == "structure" ) ONE( e->GetStructure( &p ) )
    if( s == "linefont" ) ONE( e->GetLineFontPatternEntity( &p ) )
    if( s == "level" ) ONE( e->GetLevelEntity( &p ) )
    if( s == "view" ) ONE( e->GetView( &p ) )
    if( s == "transform" ) ONE( e->GetTransform( &p ) )
    if( s == "labelassoc" ) ONE( e->GetLabelAssoc( &p ) )
    if( s == "color" ) ONE( e->GetColorEntity( &p ) )
    if( s == "opt" )
    {
        size_t n = 0;
        IGES_ENTITY** l = NULL;
        if( e->GetOptionalEntities( n, l ) )
            for( size_t i = 0; i < n; ++i ) r.push_back( l[i] );
        return true;
    }
    switch( e->GetEntityType() )
    {
        case 102: if( s == "seg" ) { for( int i = 0; i < AS( 102 )->GetNCurves(); ++i ) r.push_back( AS( 102 )->GetCurve( i ) ); return true; } break;
        case 120: if( s == "L" ) ONEC( AS( 120 )->GetL( &cu ) )
                  if( s == "C" ) ONEC( AS( 120 )->GetC( &cu ) )
                  if( s == "axis" ) ONEC( AS( 120 )->GetAxis( &cu ) )
                  if( s == "gen" ) ONEC( AS( 120 )->GetGeneratrix( &cu ) ) break;
        case 122: if( s == "DE" ) ONEC( AS( 122 )->GetDE( cu ) ) break;
        case 142: if( s == "SPTR" ) ONE( AS( 142 )->GetSPTR( &p ) )
                  if( s == "BPTR" ) ONE( AS( 142 )->GetBPTR( &p ) )
                  if( s == "CPTR" ) ONE( AS( 142 )->GetCPTR( &p ) ) break;
        case 144: if( s == "PTS" ) ONE( AS( 144 )->GetPTS( p ) )
                  if( s == "PTO" ) { IGES_ENTITY_142* q = NULL; AS( 144 )->GetPTO( q ); if( q ) r.push_back( q ); return true; }
                  if( s == "PTI" )
                  {
                      size_t n = 0;
                      IGES_ENTITY_142** l = NULL;
                      if( AS( 144 )->GetPTIList( n, l ) )
                          for( size_t i = 0; i < n; ++i ) r.push_back( l[i] );
                      return true;
                  }
                  if( s == "PTIi" )
                  {
                      for( int i = 0; i < AS( 144 )->GetNPTI(); ++i ) r.push_back( AS( 144 )->GetPTI( i ) );
                      return true;
                  }
                  break;
        case 164: if( s == "curve" ) ONEC( AS( 164 )->GetClosedCurve( &cu ) ) break;
        case 180: if( s == "arg" )
                  {
                      for( int i = 0; i < AS( 180 )->GetNNodes(); ++i )
                      {
                          BTREE_NODE* n = AS( 180 )->GetNode( i );
                          if( n && !n->op ) r.push_back( n->pEnt );
                      }
                      return true;
                  }
                  break;
        case 308: if( s == "DE" )
                  {
                      size_t n = 0;
                      IGES_ENTITY** l = NULL;
                      if( AS( 308 )->GetDEList( n, l ) )
                          for( size_t i = 0; i < n; ++i ) r.push_back( l[i] );
                      return true;
                  }
                  break;
        case 408: if( s == "DE" ) { IGES_ENTITY_308* q = NULL; AS( 408 )->GetDE( q ); if( q ) r.push_back( q ); return true; } break;
        case 504: if( s == "ecurv" || s == "evert" )
                  {
                      size_t n = 0; EDGE_DATA const* v = NULL;
                      if( AS( 504 )->GetEdges( n, v ) )
                          for( size_t i = 0; i < n; ++i )
                          {
                              if( s == "ecurv" ) r.push_back( v[i].curv );
                              else { r.push_back( v[i].svp ); r.push_back( v[i].tvp ); }
                          }
                      return true;
                  }
                  break;
        case 508: if( s == "edge" || s == "pcurve" )
                  {
                      IGES_ENTITY_508* l = AS( 508 );
                      for( size_t i = 0; i < l->edges.size(); ++i )
                      {
                          if( s == "edge" ) r.push_back( l->edges[i]->data );
                          else for( size_t j = 0; j < l->edges[i]->pcurves.size(); ++j ) r.push_back( l->edges[i]->pcurves[j]->curve );
                      }
                      return true;
                  }
                  break;
        case 510: if( s == "loop" )
                  {
                      size_t n = 0;
                      IGES_ENTITY_508** l = NULL;
                      if( AS( 510 )->GetBounds( n, l ) )
                          for( size_t i = 0; i < n; ++i ) r.push_back( l[i] );
                      return true;
                  }
                  if( s == "surf" ) { p = AS( 510 )->GetSurface(); if( p ) r.push_back( p ); return true; }
                  break;
        case 514: if( s == "face" )
                  {
                      for( size_t i = 0; i < AS( 514 )->mfaces.size(); ++i ) r.push_back( AS( 514 )->mfaces[i].first );
                      return true;
                  }
                  break;
    }
    return false;
}

static IGES_ENTITY* mkEnt( int t, IGES* p )
{
    switch( t )
    {
#define MK( n ) case n: return new IGES_ENTITY_##n( p );
        MK( 100 ) MK( 102 ) MK( 104 ) MK( 108 ) MK( 110 ) MK( 120 ) MK( 122 ) MK( 124 ) MK( 126 ) MK( 128 )
        MK( 142 ) MK( 144 ) MK( 154 ) MK( 164 ) MK( 180 ) MK( 186 ) MK( 308 ) MK( 314 ) MK( 406 ) MK( 408 )
        MK( 502 ) MK( 504 ) MK( 508 ) MK( 510 ) MK( 514 )
    }
    return NULL;
}

static const char* GSLOTS[] = { "structure", "linefont", "level", "view", "transform", "labelassoc", "color", "opt", NULL };
static const char* PSLOTS[] = { "seg", "curve", "L", "C", "DE", "SPTR", "BPTR", "CPTR", "PTS", "PTO", "PTI", "arg", "ecurv", "evert", "edge", "pcurve",
                                "loop", "surf", "face", NULL };

// walk everything reachable from e by public getters, touching data
static void touch( IGES_ENTITY* e, set<IGES_ENTITY*>& seen, int& n )
{
    vector<IGES_ENTITY*> st( 1, e );
    while( !st.empty() )
    {
        IGES_ENTITY* p = st.back();
        st.pop_back();
        if( !p || !seen.insert( p ).second )
            continue;
        ++n;
        vector<IGES_ENTITY*> l;
        for( int i = 0; GSLOTS[i]; ++i )
            if( getLinks( p, GSLOTS[i], l ) ) st.insert( st.end(), l.begin(), l.end() );
        for( int i = 0; PSLOTS[i]; ++i )
            if( getLinks( p, PSLOTS[i], l ) ) st.insert( st.end(), l.begin(), l.end() );
        size_t nc = 0;
        char const** cl = NULL;
        p->GetComments( nc, cl );
        for( size_t i = 0; cl && i < nc; ++i ) n += strlen( cl[i] ) ? 0 : 0;
        string lab;
        p->GetLabel( lab );
        IGES_COLOR col; p->GetColor( col );
        int iv; p->GetLevel( iv ); p->GetLineWeightNum( iv ); p->GetEntitySubscript( iv );
        IGES_CURVE* c = asCurve( p );
        if( c )
        {
            MCAD_POINT pt;
            c->GetStartPoint( pt, true ); c->GetStartPoint( pt, false );
            c->GetEndPoint( pt, true ); c->GetEndPoint( pt, false );
            c->IsClosed();
            c->GetNSegments();
            int k = c->GetNCurves();
            c->GetCurve( -1 ); c->GetCurve( k );
        }
        if( p->GetEntityType() == 126 )
        {
            IGES_ENTITY_126* q = dynamic_cast<IGES_ENTITY_126*>( p );
            int a = 0, b = 0; double *k = NULL, *cf = NULL; bool r, cl2, pe; double v0, v1;
            if( q->GetNURBSData( a, b, &k, &cf, r, cl2, pe, v0, v1 ) && k && cf )
            {
                volatile double s = 0;
                for( int i = 0; i < a + b; ++i ) s = s + k[i];
                for( int i = 0; i < a * ( r ? 4 : 3 ); ++i ) s = s + cf[i];
            }
            MCAD_POINT nn;
            q->IsPlanar(); q->GetNormal( nn ); q->IsRational(); q->isPeriodic();
        }
        if( p->GetEntityType() == 128 )
        {
            IGES_ENTITY_128* q = dynamic_cast<IGES_ENTITY_128*>( p );
            int a = 0, b = 0, o1 = 0, o2 = 0; double *k = NULL, *k2 = NULL, *cf = NULL; bool r, c1, c2, p1, p2; double u0, u1, v0, v1;
            if( q->GetNURBSData( a, b, o1, o2, &k, &k2, &cf, r, c1, c2, p1, p2, u0, u1, v0, v1 ) && k && k2 && cf )
            {
                volatile double s = 0;
                for( int i = 0; i < a + o1; ++i ) s = s + k[i];
                for( int i = 0; i < b + o2; ++i ) s = s + k2[i];
                for( int i = 0; i < a * b * ( r ? 4 : 3 ); ++i ) s = s + cf[i];
            }
        }
        if( p->GetEntityType() == 502 )
        {
            IGES_ENTITY_502* q = dynamic_cast<IGES_ENTITY_502*>( p );
            size_t nn = 0; MCAD_POINT const* pl = NULL;
            if( q->GetVertices( nn, pl ) && pl )
            {
                volatile double s = 0;
                for( size_t i = 0; i < nn; ++i ) s = s + pl[i].x;
            }
        }
        if( p->GetEntityType() == 408 )
            dynamic_cast<IGES_ENTITY_408*>( p )->getDepthLevel();
    }
}

static string fcmp( const string& a, const string& b )
{
    ifstream f( a.c_str(), ios::binary ), g( b.c_str(), ios::binary );
    if( !f.good() || !g.good() ) return "missing";
    stringstream x, y;
    x << f.rdbuf(); y << g.rdbuf();
    return x.str() == y.str() ? "same" : "differ";
}

static vector<string> kept;

static string attrs( IGES_ENTITY* e, bool all )
{
    IGES_COLOR col = COLOR_END; bool b1 = e->GetColor( col );
    IGES_LINEFONT_PATTERN lf = LINEFONT_END; bool b2 = e->GetLineFontPattern( lf );
    int lv = -999; bool b3 = e->GetLevel( lv );
    int lw = -999; e->GetLineWeightNum( lw );
    int ss = -999; e->GetEntitySubscript( ss );
    bool vi = false; e->GetVisibility( vi );
    IGES_STAT_DEPENDS de = STAT_DEP_END; e->GetDependency( de );
    IGES_STAT_USE us = STAT_USE_END; e->GetEntityUse( us );
    IGES_STAT_HIER hi = STAT_HIER_END; e->GetHierarchy( hi );
    string la; e->GetLabel( la );
    ostringstream os;
    os.imbue( locale::classic() );
    if( all )
        os << " visible=" << vi << " depends=" << de << " use=" << us << " hier=" << hi;
    else
    {
        os << "color=" << ( b1 ? (int) col : -1 ) << " linefont=" << ( b2 ? (int) lf : -1 ) << " level=" << ( b3 ? lv : -1 ) << " weight=" << lw
           << " subscript=" << ss << " label=" << enc( la );
    }
    return os.str();
}

// the data of an entity apart from references and attributes
// a name made from the time and a counter
static string stamped( const string& n )
{
    if( n.size() == 21 && ( n.compare( 0, 4, "part" ) == 0 || n.compare( 0, 4, "assy" ) == 0 )
        && n.find_first_not_of( "0123456789", 4 ) == string::npos ) return n.substr( 0, 4 ) + "#";
    return n;
}

static string dataOf( IGES_ENTITY* e )
{
    ostringstream os;
    os.imbue( locale::classic() );
    os.precision( 17 );
    static const char* DF[] = { "ZT", "X1", "Y1", "Z1", "X2", "Y2", "Z2", "X3", "Y3", "A", "B", "C", "D", "E", "F", "X", "Y", "Z", "S", "Size", "SA", "TA",
        "LX", "LY", "LZ", "H", "R", "I1", "J1", "K1", "L", "red", "green", "blue", "R00", "R01", "R02", "R10", "R11", "R12", "R20", "R21", "R22",
        "TX", "TY", "TZ", NULL };
    for( int i = 0; DF[i]; ++i )
    {
        double* d = dfield( e, DF[i] );
        if( d ) os << DF[i] << "=" << *d << ",";
    }
    switch( e->GetEntityType() )
    {
        case 126:
        {
            int n = 0, o = 0; double *k = NULL, *cf = NULL; bool r = false, cl = false, pe = false; double a = 0, b = 0;
            if( AS( 126 )->GetNURBSData( n, o, &k, &cf, r, cl, pe, a, b ) )
            {
                os << n << "," << o << "," << r << "," << a << "," << b;
                for( int i = 0; i < n + o; ++i ) os << "," << k[i];
                for( int i = 0; i < n * ( r ? 4 : 3 ); ++i ) os << "," << cf[i];
            }
            break;
        }
        case 128:
        {
            int n1 = 0, n2 = 0, o1 = 0, o2 = 0; double *k1 = NULL, *k2 = NULL, *cf = NULL;
            bool r = false, c1 = false, c2 = false, p1 = false, p2 = false; double u0 = 0, u1 = 0, v0 = 0, v1 = 0;
            if( AS( 128 )->GetNURBSData( n1, n2, o1, o2, &k1, &k2, &cf, r, c1, c2, p1, p2, u0, u1, v0, v1 ) )
            {
                os << n1 << "," << n2 << "," << o1 << "," << o2 << "," << r;
                for( int i = 0; i < n1 + o1; ++i ) os << "," << k1[i];
                for( int i = 0; i < n2 + o2; ++i ) os << "," << k2[i];
                for( int i = 0; i < n1 * n2 * ( r ? 4 : 3 ); ++i ) os << "," << cf[i];
            }
            break;
        }
        case 142: os << AS( 142 )->CRTN << "," << AS( 142 )->PREF; break;
        case 308: os << stamped( AS( 308 )->NAME ); break;
        case 314: os << AS( 314 )->CNAME; break;
        case 406: { const string* p = (const string*) AS( 406 )->GetData(); if( p ) os << *p; break; }
        case 502:
        {
            size_t n = 0; MCAD_POINT const* v = NULL;
            if( AS( 502 )->GetVertices( n, v ) )
                for( size_t i = 0; i < n; ++i ) os << v[i].x << "," << v[i].y << "," << v[i].z << ";";
            break;
        }
        case 504:
        {
            size_t n = 0; EDGE_DATA const* v = NULL;
            if( AS( 504 )->GetEdges( n, v ) )
                for( size_t i = 0; i < n; ++i ) os << v[i].sv << "," << v[i].tv << ";";
            break;
        }
        case 180:
            for( int i = 0; i < AS( 180 )->GetNNodes(); ++i )
            {
                BTREE_NODE* n = AS( 180 )->GetNode( i );
                if( n && n->op ) os << i << ":" << n->val << ";";
            }
            break;
        case 508:
            for( size_t i = 0; i < AS( 508 )->edges.size(); ++i )
            {
                LOOP_DATA* d = AS( 508 )->edges[i];
                os << d->isVertex << "," << d->idx << "," << d->orientFlag;
                for( size_t j = 0; j < d->pcurves.size(); ++j ) os << "," << d->pcurves[j]->orientFlag;
                os << ";";
            }
            break;
        case 510: os << AS( 510 )->GetOuterLoopFlag(); break;
    }
    size_t n = 0;
    char const** l = NULL;
    if( e->GetComments( n, l ) )
        for( size_t i = 0; i < n; ++i ) os << "/" << l[i];
    return os.str();
}

// everything the getters tell of the entities which are reachable from e, one item each; references by entity subscript
static void inspect( IGES_ENTITY* e, set<IGES_ENTITY*>& done, string& out )
{
    if( !e || !done.insert( e ).second ) return;
    int sub = 0;
    e->GetEntitySubscript( sub );
    ostringstream os;
    os << sub << "|" << e->GetEntityType() << "|" << e->GetEntityForm() << "|" << attrs( e, false ) << attrs( e, true ) << "|";
    string text = os.str(), dat = dataOf( e ), com;
    // the comments are apart
    size_t n = 0;
    char const** l = NULL;
    if( e->GetComments( n, l ) )
        for( size_t i = 0; i < n; ++i ) com += string( "/" ) + l[i];
    if( com.size() <= dat.size() && dat.compare( dat.size() - com.size(), com.size(), com ) == 0 ) dat.erase( dat.size() - com.size() );
    text += enc( dat ) + "|" + enc( com ) + "|";
    vector<IGES_ENTITY*> all, r;
    for( int k = 0; k < 2; ++k )
    {
        const char** S = k ? PSLOTS : GSLOTS;
        for( int i = 0; S[i]; ++i )
        {
            if( !getLinks( e, S[i], r ) || r.empty() ) continue;
            text += string( S[i] ) + "=";
            for( size_t j = 0; j < r.size(); ++j )
            {
                int q = -1;
                if( r[j] ) r[j]->GetEntitySubscript( q );
                char b[24];
                snprintf( b, 24, "%s%d", j ? "," : "", q );
                text += b;
                all.push_back( r[j] );
            }
            text += ";";
        }
    }
    out += ( out.empty() ? "" : " " ) + enc( text );
    for( size_t i = 0; i < all.size(); ++i ) inspect( all[i], done, out );
}

static string fnv( const string& s )
{
    unsigned long long h = 1469598103934665603ULL;
    for( size_t i = 0; i < s.size(); ++i ) { h ^= (unsigned char) s[i]; h *= 1099511628211ULL; }
    char b[20];
    snprintf( b, 20, "%016llx", h );
    return b;
}

#ifdef VW
#include "vwrap.h"
#endif

static bool command()
{
    const string c = A[0];
#ifdef VW
    if( wrapCommand() ) return true;
#endif
    IGES* m = NULL;
    IGES_ENTITY* e = NULL;
    if( c == "new" ) { M[arg( 1 )] = new IGES; R( "1" ); return true; }
    if( c == "mkent" )
    {
        IGES_ENTITY* p = mkEnt( iarg( 1 ), mod( arg( 3 ) ) );
        setEnt( arg( 2 ), p );
        RB( p != NULL );
        return true;
    }
    if( c == "fcmp" ) { R( fcmp( sarg( 1 ), sarg( 2 ) ) ); return true; }
    if( c == "gdump" )     // everything observable about every entity that was ever named
    {
        set<IGES_ENTITY*> done;
        string r, dead;
        // entities which are no longer alive
        vector<string> l;
        for( map<string, IGES_ENTITY*>::iterator i = E.begin(); i != E.end(); ++i )
        {
            map<IGES_ENTITY*, bool*>::iterator w = W.find( i->second );
            if( w != W.end() && !*w->second )
                l.push_back( i->first );
        }
        for( size_t i = 0; i < l.size(); ++i ) forget( l[i] );
        for( size_t i = 0; i < gone.size(); ++i ) dead += ( i ? "," : "" ) + gone[i];
        gone.clear();
        for( map<IGES_ENTITY*, bool*>::iterator i = W.begin(); i != W.end(); )
        {
            if( *i->second ) { ++i; continue; }
            delete i->second;
            W.erase( i++ );
        }
        bool more = true;
        while( more )
        {
            more = false;
            map<string, IGES_ENTITY*> cur( E );
            for( map<string, IGES_ENTITY*>::iterator i = cur.begin(); i != cur.end(); ++i )
            {
                IGES_ENTITY* e = i->second;
                if( !done.insert( e ).second ) continue;
                more = true;
                if( !W.count( e ) )
                {
                    W[e] = new bool( true );
                    e->AttachValidFlag( W[e] );
                }
                IGES* p = e->GetParentIGES();
                string pn = p ? "?" : "-";
                for( map<string, IGES*>::iterator j = M.begin(); j != M.end(); ++j ) if( j->second == p ) pn = j->first;
                char b[64];
                snprintf( b, 64, "|%d:%d|%zu|", e->GetEntityType(), e->GetEntityForm(), e->getNRefs() );
                r += ( r.empty() ? "" : "#" ) + i->first + "|" + pn + b + fnv( attrs( e, false ) + dataOf( e ) ) + "|" + fnv( attrs( e, true ) );
                IGES_STAT_DEPENDS dep = STAT_DEP_END;
                e->GetDependency( dep );
                r += string( "." ) + (char) ( '0' + dep ) + "|";
                vector<IGES_ENTITY*> l;
                string q;
                for( int k = 0; k < 2; ++k )
                {
                    const char** S = k ? PSLOTS : GSLOTS;
                    for( int i = 0; S[i]; ++i )
                    {
                        if( !getLinks( e, S[i], l ) || l.empty() ) continue;
                        q += ( q.empty() ? "" : " " ) + string( S[i] ) + "=";
                        for( size_t j = 0; j < l.size(); ++j ) q += ( j ? "," : "" ) + nameOf( l[j] );
                    }
                }
                r += enc( q );
            }
        }
        R( dead + " " + r );
        return true;
    }
    if( c == "gdata" ) { IGES_ENTITY* e = ent( arg( 1 ) ); R( e ? enc( attrs( e, false ) + " " + attrs( e, true ) + " " + dataOf( e ) ) : "noent" ); return true; }
    if( c == "inspect" )
    {
        set<IGES_ENTITY*> done;
        string r;
        for( size_t i = 1; i < A.size(); ++i ) inspect( ent( arg( i ) ), done, r );
        R( r.empty() ? "-" : r );
        return true;
    }
    if( localeCommand() || faultCommand() ) return true;
    if( c == "fsize" )
    {
        struct rlimit rl;
        getrlimit( RLIMIT_FSIZE, &rl );
        rl.rlim_cur = arg( 1 ) == "inf" ? rl.rlim_max : (rlim_t) strtoll( arg( 1 ).c_str(), NULL, 10 );
        RB( setrlimit( RLIMIT_FSIZE, &rl ) == 0 );
        return true;
    }
    if( c == "heap" )
    {
#ifdef HAVE_ASAN
        char b[64];
        snprintf( b, 64, "%zu", __sanitizer_get_current_allocated_bytes() );
        R( b );
#else
        R( "0" );
#endif
        return true;
    }
    if( c == "nop" ) { R( "1" ); return true; }

    // ---- models ----
    static const set<string> MC = { "del", "clear", "read", "write", "conv", "scale", "cull", "compact", "export", "nent", "addent",
        "delent", "unlinkent", "hdr", "hdrs", "gset", "gget", "unitname", "partname", "assyname", "pings", "exportlist" };
    if( MC.count( c ) )
    {
        m = mod( arg( 1 ) );
        if( !m ) { R( "nomodel" ); return true; }
        if( c == "del" )
        {
            delete m;
            M.erase( arg( 1 ) );
            R( "1" );
        }
        else if( c == "clear" ) RB( m->Clear() );
        else if( c == "read" ) RB( m->Read( sarg( 2 ).c_str() ) );
        else if( c == "write" )
        {
            bool ok;
            { Faults f; ok = m->Write( sarg( 2 ).c_str(), iarg( 3 ) != 0 ); }
            RB( ok );
        }
        else if( c == "conv" ) RB( m->ConvertUnits( (IGES_UNIT) iarg( 2 ) ) );
        else if( c == "scale" ) RB( m->ChangeModelScale( darg( 2 ) ) );
        else if( c == "cull" ) { m->Cull( iarg( 2 ) != 0 ); R( "1" ); }
        else if( c == "compact" ) { m->Compact(); R( "1" ); }
        else if( c == "export" )
        {
            IGES_ENTITY_308* p = NULL;
            bool ok = m->Export( mod( arg( 2 ) ), &p );
            if( ok && p )
                setEnt( arg( 3 ), p );
            R( string( ok ? "1" : "0" ) + ( p ? " p" : " null" ) );
        }
        else if( c == "exportlist" )   // export m into a fresh model, walk what is there
        {
            IGES nm;
            IGES_ENTITY_308* p = NULL;
            bool ok = m->Export( &nm, &p );
            int n = 0;
            if( ok && p )
            {
                set<IGES_ENTITY*> seen;
                touch( p, seen, n );
            }
            char b[64];
            snprintf( b, 64, "%d %d", ok, n );
            R( b );
        }
        else if( c == "nent" )
        {
            IGES_ENTITY* p = NULL;
            bool ok = m->NewEntity( iarg( 2 ), &p );
            if( p ) setEnt( arg( 3 ), p );
            RB( ok && p );
        }
        else if( c == "addent" ) RB( m->AddEntity( ent( arg( 2 ) ) ) );
        else if( c == "delent" )
        {
            IGES_ENTITY* p = ent( arg( 2 ) );
            bool ok = m->DelEntity( p );
            if( ok ) forget( arg( 2 ) );    // deleted: must be seen as dead
            RB( ok );
        }
        else if( c == "unlinkent" ) RB( m->UnlinkEntity( ent( arg( 2 ) ) ) );
        else if( c == "hdr" )
        {
            string s = sarg( 2 );
            const char* p = s.c_str();
            RB( m->AddToHeader( p ) );
        }
        else if( c == "hdrs" )
        {
            // the size parameter of GetHeaders is passed by value: use the counter
            size_t n = m->GetNHeaderLines();
            char const** l = NULL;
            string r;
            if( n > 0 && m->GetHeaders( n, l ) && l )
                for( size_t i = 0; i < n; ++i ) r += " " + enc( l[i] );
            char b[32];
            snprintf( b, 32, "%zu", n );
            R( string( b ) + r );
        }
        else if( c == "unitname" ) { const char* p = m->GetUnitName(); R( p ? enc( p ) : "null" ); }
        else if( c == "partname" ) { string s; m->GetNewPartName( s ); R( enc( s ) ); }
        else if( c == "assyname" ) { string s; m->GetNewAssemblyName( s ); R( enc( s ) ); }
        else if( c == "gset" )
        {
            IGES_GLOBAL& g = m->globalData;
            string k = arg( 2 );
#define GS( f ) if( k == #f ) g.f = sarg( 3 ); else
#define GI( f ) if( k == #f ) g.f = iarg( 3 ); else
#define GD( f ) if( k == #f ) g.f = darg( 3 ); else
            GS( productIDSS ) GS( fileName ) GS( nativeSystemID ) GS( preprocessorVersion ) GI( nIntegerBits ) GI( floatMaxExp )
            GI( floatMaxSig ) GI( doubleMaxExp ) GI( doubleMaxSig ) GS( productIDRS ) GD( modelScale ) GS( unitsName )
            GI( maxLinewidthGrad ) GD( maxLinewidth ) GS( creationDate ) GD( minResolution ) GD( maxCoordinateValue ) GS( author )
            GS( organization ) GI( igesVersion ) GS( modificationDate ) GS( applicationNote )
            if( k == "pdelim" ) g.pdelim = sarg( 3 )[0];
            else if( k == "rdelim" ) g.rdelim = sarg( 3 )[0];
            else if( k == "unitsFlag" ) g.unitsFlag = (IGES_UNIT) iarg( 3 );
            else if( k == "draftStandard" ) g.draftStandard = (IGES_DRAFTING_STANDARD) iarg( 3 );
            R( "1" );
        }
        else if( c == "gget" )
        {
            IGES_GLOBAL& g = m->globalData;
            string r;
            ostringstream o;
            o.imbue( locale::classic() );
#define PS( f ) r += string( #f "=" ) + enc( g.f ) + " ";
#define PI( f ) { o.str( "" ); o << (int) g.f; r += string( #f "=" ) + o.str() + " "; }
#define PD( f ) r += string( #f "=" ) + fd( g.f ) + " ";
            PS( productIDSS ) PS( fileName ) PS( nativeSystemID ) PS( preprocessorVersion ) PI( nIntegerBits ) PI( floatMaxExp )
            PI( floatMaxSig ) PI( doubleMaxExp ) PI( doubleMaxSig ) PS( productIDRS ) PD( modelScale ) PI( unitsFlag ) PS( unitsName )
            PI( maxLinewidthGrad ) PD( maxLinewidth ) PS( creationDate ) PD( minResolution ) PD( maxCoordinateValue ) PS( author )
            PS( organization ) PI( igesVersion ) PI( draftStandard ) PS( modificationDate ) PS( applicationNote )
            PI( pdelim ) PI( rdelim )
            R( r );
        }
        else R( "?" );
        return true;
    }

    // ---- transforms algebra (stateless) ----
    if( c == "xf" )     // xf mul 12 12 | app 12 3 | smul s 12 | mmul..
    {
        auto rd = [&]( int k ) {
            MCAD_TRANSFORM t;
            for( int i = 0; i < 3; ++i )
                for( int j = 0; j < 3; ++j ) t.R.v[i][j] = darg( k + i * 4 + j );
            t.T.x = darg( k + 3 ); t.T.y = darg( k + 7 ); t.T.z = darg( k + 11 );
            return t;
        };
        auto pr = [&]( const MCAD_TRANSFORM& t ) {
            string r;
            const double tt[3] = { t.T.x, t.T.y, t.T.z };
            for( int i = 0; i < 3; ++i )
            {
                for( int j = 0; j < 3; ++j ) r += fd( t.R.v[i][j] ) + " ";
                r += fd( tt[i] ) + " ";
            }
            R( r );
        };
        auto pp = [&]( const MCAD_POINT& p ) { R( fd( p.x ) + " " + fd( p.y ) + " " + fd( p.z ) ); };
        string o = arg( 1 );
        if( o == "mul" ) pr( rd( 2 ) * rd( 14 ) );
        else if( o == "imul" ) { MCAD_TRANSFORM a = rd( 2 ), b = rd( 14 ); a *= memcmp( &a, &b, sizeof a ) ? b : a; pr( a ); }   // equal: by itself
        else if( o == "app" ) pp( rd( 2 ) * MCAD_POINT( darg( 14 ), darg( 15 ), darg( 16 ) ) );
        else if( o == "smul" ) pr( darg( 2 ) * rd( 3 ) );
        else if( o == "ismul" ) { MCAD_TRANSFORM a = rd( 3 ); a *= darg( 2 ); pr( a ); }
        else if( o == "copy" ) { MCAD_TRANSFORM a( rd( 2 ) ); MCAD_TRANSFORM b( a.R, a.T ); pr( b ); }
        else if( o == "m" )   // matrices: m op a b  (the R parts)
        {
            MCAD_TRANSFORM a = rd( 3 ), b = rd( 15 ), z;
            string q = arg( 2 );
            bool same = !memcmp( &a.R, &b.R, sizeof a.R );
            if( q == "*" ) z.R = a.R * b.R;
            else if( q == "*=" ) { z.R = a.R; z.R *= same ? z.R : b.R; }
            else if( q == "+" ) z.R = a.R + b.R;
            else if( q == "+=" ) { z.R = a.R; z.R += same ? z.R : b.R; }
            else if( q == "-" ) z.R = a.R - b.R;
            else if( q == "-=" ) { z.R = a.R; z.R -= same ? z.R : b.R; }
            else if( q == "s*" ) z.R = a.T.x * b.R;
            else if( q == "*s" ) z.R = b.R * a.T.x;
            else if( q == "*=s" ) { z.R = b.R; z.R *= a.T.x; }
            pr( z );
        }
        else if( o == "p" )   // points: p op x y z x y z s
        {
            MCAD_POINT a( darg( 3 ), darg( 4 ), darg( 5 ) ), b( darg( 6 ), darg( 7 ), darg( 8 ) );
            double s = darg( 9 );
            string q = arg( 2 );
            if( q == "+" ) pp( a + b );
            else if( q == "+=" ) { a += memcmp( &a, &b, sizeof a ) ? b : a; pp( a ); }
            else if( q == "-" ) pp( a - b );
            else if( q == "-=" ) { a -= memcmp( &a, &b, sizeof a ) ? b : a; pp( a ); }
            else if( q == "*s" ) pp( a * s );
            else if( q == "s*" ) pp( s * a );
            else if( q == "*=s" ) { a *= s; pp( a ); }
            else if( q == "match" ) RB( PointMatches( a, b, s ) );
            else if( q == "norm" )
            {
                bool ok = CheckNormal( a.x, a.y, a.z );
                R( string( ok ? "1 " : "0 " ) + fd( a.x ) + " " + fd( a.y ) + " " + fd( a.z ) );
            }
            else if( q == "calcn" )
            {
                MCAD_POINT p2( darg( 9 ), darg( 10 ), darg( 11 ) ), n;
                bool ok = CalcNormal( &a, &b, &p2, &n );
                R( string( ok ? "1 " : "0 " ) + fd( n.x ) + " " + fd( n.y ) + " " + fd( n.z ) );
            }
        }
        return true;
    }

    // ---- entities ----
    e = ent( arg( 1 ) );
    if( !e ) { R( "noentity" ); return true; }
    if( c == "free" )    // delete an entity which no model owns
    {
        if( e->GetParentIGES() ) { R( "0" ); return true; }
        forget( arg( 1 ) );
        delete e;
        R( "1" );
    }
    else if( c == "destroy" ) { forget( arg( 1 ) ); delete e; R( "1" ); }
    else if( c == "type" ) { char b[48]; snprintf( b, 48, "%d %d", e->GetEntityType(), e->GetEntityForm() ); R( b ); }
    else if( c == "form" ) RB( e->SetEntityForm( iarg( 2 ) ) );
    else if( c == "set" )
    {
        double* d = dfield( e, arg( 2 ) );
        int* i = d ? NULL : ifield( e, arg( 2 ) );
        if( d ) *d = darg( 3 );
        else if( i ) *i = iarg( 3 );
        else { R( "nofield" ); return true; }
        R( "1" );
    }
    else if( c == "get" )
    {
        double* d = dfield( e, arg( 2 ) );
        int* i = d ? NULL : ifield( e, arg( 2 ) );
        if( d ) R( fd( *d ) );
        else if( i ) { char b[32]; snprintf( b, 32, "%d", *i ); R( b ); }
        else R( "nofield" );
    }
    else if( c == "sets" )
    {
        if( e->GetEntityType() == 308 ) AS( 308 )->NAME = sarg( 2 );
        else if( e->GetEntityType() == 314 ) AS( 314 )->cname = sarg( 2 );
        else if( e->GetEntityType() == 406 ) { RB( AS( 406 )->SetData( sarg( 2 ).c_str() ) ); return true; }
        R( "1" );
    }
    else if( c == "gets" )
    {
        if( e->GetEntityType() == 308 ) R( enc( AS( 308 )->NAME ) );
        else if( e->GetEntityType() == 314 ) R( enc( AS( 314 )->CNAME ) );
        else if( e->GetEntityType() == 406 ) { const string* p = (const string*) AS( 406 )->GetData(); R( p ? enc( *p ) : "null" ); }
        else R( "?" );
    }
    else if( c == "link" )
    {
        IGES_ENTITY* ch = arg( 3 ) == "null" ? NULL : ent( arg( 3 ) );
        if( !ch && arg( 3 ) != "null" ) { R( "nochild" ); return true; }
        badType = false;
        int r = doLink( e, arg( 2 ), ch );
        R( badType ? "badtype" : r < 0 ? "noslot" : r ? "1" : "0" );
    }
    else if( c == "links" )
    {
        vector<IGES_ENTITY*> l;
        if( !getLinks( e, arg( 2 ), l ) ) { R( "noslot" ); return true; }
        string r;
        for( size_t i = 0; i < l.size(); ++i ) r += ( i ? " " : "" ) + nameOf( l[i] );
        R( r );
    }
    else if( c == "alllinks" )
    {
        vector<IGES_ENTITY*> l;
        string r;
        for( int k = 0; k < 2; ++k )
        {
            const char** S = k ? PSLOTS : GSLOTS;
            for( int i = 0; S[i]; ++i )
            {
                if( !getLinks( e, S[i], l ) || l.empty() ) continue;
                r += string( S[i] ) + "=";
                for( size_t j = 0; j < l.size(); ++j ) r += ( j ? "," : "" ) + nameOf( l[j] );
                r += " ";
            }
        }
        R( r );
    }
    else if( c == "edge504" )
        RB( AS( 504 ) && AS( 504 )->AddEdge( ent( arg( 2 ) ), dynamic_cast<IGES_ENTITY_502*>( ent( arg( 3 ) ) ), iarg( 4 ),
                                            dynamic_cast<IGES_ENTITY_502*>( ent( arg( 5 ) ) ), iarg( 6 ) ) );
    else if( c == "edge508" && !AS( 508 ) ) R( "badtype" );
    else if( c == "edge508" )   // edge508 e data isVertex idx orient pc1 flag1 pc2 flag2...
    {
        LOOP_DATA* ld = new LOOP_DATA;
        ld->data = ent( arg( 2 ) );
        ld->isVertex = iarg( 3 ) != 0;
        ld->idx = iarg( 4 );
        ld->orientFlag = iarg( 5 ) != 0;
        for( size_t i = 6; i + 1 < A.size(); i += 2 )
            ld->pcurves.push_back( new LOOP_PAIR( iarg( i + 1 ) != 0, ent( arg( i ) ) ) );
        LOOP_DATA* p = ld;
        bool ok = AS( 508 )->AddEdge( p );
        if( !ok )
        {
            for( size_t i = 0; i < ld->pcurves.size(); ++i ) delete ld->pcurves[i];
            delete ld;
        }
        RB( ok );
    }
    else if( c == "vert502" && !AS( 502 ) ) R( "badtype" );
    else if( c == "vert502" ) { AS( 502 )->AddVertex( MCAD_POINT( darg( 2 ), darg( 3 ), darg( 4 ) ) ); R( "1" ); }
    else if( c == "op180" && !AS( 180 ) ) R( "badtype" );
    else if( c == "op180" ) RB( AS( 180 )->AddOp( (BTREE_OPERATOR) iarg( 2 ) ) );
    else if( c == "clear180" && !AS( 180 ) ) R( "badtype" );
    else if( c == "clear180" ) { AS( 180 )->ClearNodes(); R( "1" ); }
    else if( c == "outer510" && !AS( 510 ) ) R( "badtype" );
    else if( c == "outer510" ) { AS( 510 )->SetOuterLoopFlag( iarg( 2 ) != 0 ); R( "1" ); }
    else if( c == "nurbs" )   // nurbs e nCoeff order rational v0 v1 knots... coeffs...
    {
        int n = iarg( 2 ), o = iarg( 3 );
        bool r = iarg( 4 ) != 0;
        vector<double> k, cf;
        size_t i = 7;
        for( int j = 0; j < n + o; ++j ) k.push_back( darg( i++ ) );
        for( int j = 0; j < n * ( r ? 4 : 3 ); ++j ) cf.push_back( darg( i++ ) );
        RB( AS( 126 )->SetNURBSData( n, o, k.data(), cf.data(), r, darg( 5 ), darg( 6 ) ) );
    }
    else if( c == "nurbself" )      // hand an entity the data it gave out itself
    {
        int n = 0, o = 0, n2 = 0, o2 = 0;
        double *k = NULL, *k2 = NULL, *cf = NULL;
        bool r = false, cl = false, cl2 = false, pe = false, pe2 = false;
        double u0 = 0, u1 = 0, v0 = 0, v1 = 0;
        if( AS( 126 ) )
            RB( AS( 126 )->GetNURBSData( n, o, &k, &cf, r, cl, pe, v0, v1 ) && AS( 126 )->SetNURBSData( n, o, k, cf, r, v0, v1 ) );
        else
            RB( AS( 128 )->GetNURBSData( n, n2, o, o2, &k, &k2, &cf, r, cl, cl2, pe, pe2, u0, u1, v0, v1 )
                && AS( 128 )->SetNURBSData( n, n2, o, o2, k, k2, cf, r, pe, pe2, u0, u1, v0, v1 ) );
    }
    else if( c == "gnurbs" )
    {
        int n = 0, o = 0;
        double *k = NULL, *cf = NULL;
        bool r = false, cl = false, pe = false;
        double v0 = 0, v1 = 0;
        if( !AS( 126 )->GetNURBSData( n, o, &k, &cf, r, cl, pe, v0, v1 ) ) { R( "0" ); return true; }
        ostringstream os;
        os << n << " " << o << " " << r << " " << cl << " " << pe << " " << fd( v0 ) << " " << fd( v1 );
        for( int i = 0; i < n + o; ++i ) os << " " << fd( k[i] );
        for( int i = 0; i < n * ( r ? 4 : 3 ); ++i ) os << " " << fd( cf[i] );
        R( "1 " + os.str() );
    }
    else if( c == "nurbss" )   // nurbss e n1 n2 o1 o2 rational per1 per2 u0 u1 v0 v1 knots1 knots2 coeff
    {
        int n1 = iarg( 2 ), n2 = iarg( 3 ), o1 = iarg( 4 ), o2 = iarg( 5 );
        bool r = iarg( 6 ) != 0;
        vector<double> k1, k2, cf;
        size_t i = 13;
        for( int j = 0; j < n1 + o1; ++j ) k1.push_back( darg( i++ ) );
        for( int j = 0; j < n2 + o2; ++j ) k2.push_back( darg( i++ ) );
        for( int j = 0; j < n1 * n2 * ( r ? 4 : 3 ); ++j ) cf.push_back( darg( i++ ) );
        RB( AS( 128 )->SetNURBSData( n1, n2, o1, o2, k1.data(), k2.data(), cf.data(), r, iarg( 7 ) != 0, iarg( 8 ) != 0, darg( 9 ), darg( 10 ),
                                     darg( 11 ), darg( 12 ) ) );
    }
    else if( c == "gnurbss" )
    {
        int n1 = 0, n2 = 0, o1 = 0, o2 = 0;
        double *k1 = NULL, *k2 = NULL, *cf = NULL;
        bool r = false, c1 = false, c2 = false, p1 = false, p2 = false;
        double u0 = 0, u1 = 0, v0 = 0, v1 = 0;
        if( !AS( 128 )->GetNURBSData( n1, n2, o1, o2, &k1, &k2, &cf, r, c1, c2, p1, p2, u0, u1, v0, v1 ) ) { R( "0" ); return true; }
        ostringstream os;
        os << n1 << " " << n2 << " " << o1 << " " << o2 << " " << r << " " << c1 << " " << c2 << " " << p1 << " " << p2 << " "
           << fd( u0 ) << " " << fd( u1 ) << " " << fd( v0 ) << " " << fd( v1 );
        for( int i = 0; i < n1 + o1; ++i ) os << " " << fd( k1[i] );
        for( int i = 0; i < n2 + o2; ++i ) os << " " << fd( k2[i] );
        for( int i = 0; i < n1 * n2 * ( r ? 4 : 3 ); ++i ) os << " " << fd( cf[i] );
        R( "1 " + os.str() );
    }
    else if( c == "curve" )   // curve e: all queries
    {
        IGES_CURVE* k = asCurve( e );
        if( !k ) { R( "nocurve" ); return true; }
        ostringstream os;
        for( int x = 0; x < 2; ++x )
        {
            MCAD_POINT p( 0, 0, 0 ), q( 0, 0, 0 );
            bool a = k->GetStartPoint( p, x != 0 );
            bool b = k->GetEndPoint( q, x != 0 );
            os << a << " " << fd( p.x ) << " " << fd( p.y ) << " " << fd( p.z ) << " " << b << " " << fd( q.x ) << " " << fd( q.y ) << " "
               << fd( q.z ) << " ";
        }
        os << k->IsClosed() << " " << k->GetNSegments() << " " << k->GetNCurves();
        R( os.str() );
    }
    else if( c == "subcurves" )
    {
        IGES_CURVE* k = asCurve( e );
        if( !k ) { R( "nocurve" ); return true; }
        string r;
        for( int i = -1; i <= k->GetNCurves(); ++i ) r += nameOf( k->GetCurve( i ) ) + " ";
        R( r );
    }
    else if( c == "planar" )
    {
        MCAD_POINT p( 0, 0, 0 );
        bool a = AS( 126 )->IsPlanar(), b = AS( 126 )->GetNormal( p );
        ostringstream os;
        os << a << " " << b << " " << fd( p.x ) << " " << fd( p.y ) << " " << fd( p.z );
        R( os.str() );
    }
    else if( c == "gtransform" )
    {
        MCAD_TRANSFORM t = AS( 124 )->GetTransformMatrix();
        string r;
        const double tt[3] = { t.T.x, t.T.y, t.T.z };
        for( int i = 0; i < 3; ++i )
        {
            for( int j = 0; j < 3; ++j ) r += fd( t.R.v[i][j] ) + " ";
            r += fd( tt[i] ) + " ";
        }
        R( r );
    }
    else if( c == "setattr" )
    {
        string k = arg( 2 );
        bool r = false;
        int v = iarg( 3 );
        if( k == "color" ) r = e->SetColor( (IGES_COLOR) v );
        else if( k == "linefont" ) r = e->SetLineFontPattern( (IGES_LINEFONT_PATTERN) v );
        else if( k == "level" ) r = e->SetLevel( v );
        else if( k == "weight" ) r = e->SetLineWeightNum( v );
        else if( k == "label" ) r = e->SetLabel( sarg( 3 ) );
        else if( k == "subscript" ) r = e->SetEntitySubscript( v );
        else if( k == "visible" ) r = e->SetVisibility( v != 0 );
        else if( k == "depends" ) r = e->SetDependency( (IGES_STAT_DEPENDS) v );
        else if( k == "use" ) r = e->SetEntityUse( (IGES_STAT_USE) v );
        else if( k == "hier" ) r = e->SetHierarchy( (IGES_STAT_HIER) v );
        else { R( "?" ); return true; }
        RB( r );
    }
    else if( c == "attrs" )
    {
        IGES_COLOR col = COLOR_END; bool b1 = e->GetColor( col );
        IGES_LINEFONT_PATTERN lf = LINEFONT_END; bool b2 = e->GetLineFontPattern( lf );
        int lv = -999; bool b3 = e->GetLevel( lv );
        int lw = -999; e->GetLineWeightNum( lw );
        int ss = -999; e->GetEntitySubscript( ss );
        bool vi = false; e->GetVisibility( vi );
        IGES_STAT_DEPENDS de = STAT_DEP_END; e->GetDependency( de );
        IGES_STAT_USE us = STAT_USE_END; e->GetEntityUse( us );
        IGES_STAT_HIER hi = STAT_HIER_END; e->GetHierarchy( hi );
        string la; e->GetLabel( la );
        ostringstream os;
        os << "color=" << ( b1 ? (int) col : -1 ) << " linefont=" << ( b2 ? (int) lf : -1 ) << " level=" << ( b3 ? lv : -1 ) << " weight=" << lw
           << " subscript=" << ss << " visible=" << vi << " depends=" << de << " use=" << us << " hier=" << hi << " label=" << enc( la )
           << " nopt=" << e->GetNOptionalEntities() << " ncom=" << e->GetNComments() << " nrefs=" << e->getNRefs();
        R( os.str() );
    }
    else if( c == "parent" )
    {
        IGES* p = e->GetParentIGES();
        string r = p ? "?" : "null";
        for( map<string, IGES*>::iterator i = M.begin(); i != M.end(); ++i ) if( i->second == p ) r = i->first;
        R( r );
    }
    else if( c == "setparent" ) RB( e->SetParentIGES( mod( arg( 2 ) ) ) );
    else if( c == "comment" ) RB( e->AddComment( sarg( 2 ) ) );
    else if( c == "delcomment" ) RB( e->DelComment( iarg( 2 ) ) );
    else if( c == "clrcomment" ) RB( e->ClearComments() );
    else if( c == "comments" )
    {
        size_t n = 0;
        char const** l = NULL;
        string r;
        bool ok = e->GetComments( n, l );
        if( ok ) for( size_t i = 0; i < n; ++i ) r += " " + enc( l[i] );
        string q;
        for( int i = -1; i <= e->GetNComments(); ++i )
        {
            const char* p = e->GetComment( i );
            q += " " + ( p ? enc( p ) : string( "null" ) );
        }
        R( string( ok ? "1" : "0" ) + r + " |" + q );
    }
    else if( c == "optidx" )
    {
        string r;
        for( int i = -1; i <= e->GetNOptionalEntities(); ++i ) r += nameOf( e->GetOptionalEntity( i ) ) + " ";
        R( r );
    }
    else if( c == "depth" ) { char b[32]; snprintf( b, 32, "%d", AS( 408 ) ? AS( 408 )->getDepthLevel() : AS( 308 ) ? AS( 308 )->DEPTH : -1 ); R( b ); }
    else if( c == "touch" ) { set<IGES_ENTITY*> s; int n = 0; touch( e, s, n ); char b[32]; snprintf( b, 32, "%d", n ); R( b ); }
    else R( "badcmd" );
    return true;
}

static void cleanup()
{
#ifdef VW
    wrapCleanup( true );
#endif
    for( map<string, IGES*>::iterator i = M.begin(); i != M.end(); ++i ) delete i->second;
    M.clear();
    // watched entities which no model owns
    for( map<IGES_ENTITY*, bool*>::iterator i = W.begin(); i != W.end(); ++i )
        if( *i->second ) delete i->first;
    for( map<IGES_ENTITY*, bool*>::iterator i = W.begin(); i != W.end(); ++i ) delete i->second;
    W.clear();
#ifdef VW
    wrapCleanup( false );
#endif
    gone.clear();
    E.clear();
    RE.clear();
    autoN = 0;
}

// per-case processor-time limit (not wall-clock): a hang is reported as such
static int cpuLimit = 20;

static void onProf( int )
{
    static const char msg[] = "HANG\n";
    int fd = fileno( OUT );
    if( write( fd, msg, sizeof( msg ) - 1 ) < 0 ) _exit( 98 );
    _exit( 97 );
}

static void arm( int on )
{
    struct itimerval t;
    memset( &t, 0, sizeof( t ) );
    t.it_value.tv_sec = on ? cpuLimit : 0;
    setitimer( ITIMER_PROF, &t, NULL );
}

#include "vpaint.h"

int main( int argc, char** argv )
{
    if( getenv( "VH_CPU" ) ) cpuLimit = atoi( getenv( "VH_CPU" ) );
    signal( SIGPROF, onProf );
    if( argc < 3 ) return 2;
    OUT = fopen( argv[2], "a" );
    if( !OUT ) return 2;
    signal( SIGXFSZ, SIG_IGN );
    signal( SIGPIPE, SIG_IGN );
    ifstream in( argv[1] );
    in.imbue( locale::classic() );
    string line;
    while( getline( in, line ) )
    {
        A.clear();
        size_t i = 0;
        while( i < line.size() )
        {
            while( i < line.size() && line[i] == ' ' ) ++i;
            size_t j = i;
            while( j < line.size() && line[j] != ' ' ) ++j;
            if( j > i ) A.push_back( line.substr( i, j - i ) );
            i = j;
        }
        if( A.empty() ) continue;
        if( A[0] == "CASE" ) { localeReset(); vfReset(); arm( 1 ); fprintf( OUT, "CASE %s\n", arg( 1 ).c_str() ); fflush( OUT ); continue; }
        if( A[0] == "END" )
        {
            fprintf( OUT, "CLEAN\n" );
            fflush( OUT );
            try { cleanup(); } catch( std::exception& x ) { fprintf( OUT, "EXC %s\n", enc( x.what() ).c_str() ); }
            fprintf( OUT, "END\n" );
            fflush( OUT );
            continue;
        }
        if( A[0] == "LEAKS" )
        {
            int r = 0;
#ifdef HAVE_ASAN
            A.clear();
            r = __lsan_do_recoverable_leak_check();
#endif
            fprintf( OUT, "R %d\n", r ); fflush( OUT );
            continue;
        }
        paintStack();
        try
        {
            command();
        }
        catch( std::exception& x )
        {
            fprintf( OUT, "EXC %s\n", enc( x.what() ).c_str() );
            fflush( OUT );
        }
        catch( ... )
        {
            fprintf( OUT, "EXC unknown\n" );
            fflush( OUT );
        }
    }
    fprintf( OUT, "DONE\n" );
    fclose( OUT );
    return 0;
}
