// The wrappers of the outline geometry.  In "wmode 1" the commands of vg are carried out
// through wrappers; the results have to be the same.  The h* commands work with
// wrappers which live on.
#include <api/dll_mcad_segment.h>
#include <api/dll_mcad_outline.h>
#include <api/dll_iges_geom_pcb.h>

static int wmode = 0;
static unsigned wcnt = 0;
static long wused = 0;
static bool alt() { return ( ++wcnt & 1 ) != 0; }

static const char* IFL[] = { "NONE", "ENDPOINT", "TANGENT", "EDGE", "INSIDE", "ENCIRCLES", "OUTSIDE", "IDENT", "MULTIEDGE" };

// wrappers which do not destroy what they wrap
struct WS : public DLL_MCAD_SEGMENT
{
    WS( MCAD_SEGMENT* s ) : DLL_MCAD_SEGMENT( false ) { if( s && !Attach( s ) ) throw string( "WRAP attach refused" ); }
    ~WS() { Detach(); }
};
template<class T> struct WOt : public T
{
    WOt( MCAD_OUTLINE* s ) : T( false ) { if( s && !T::Attach( s ) ) throw string( "WRAP attach refused" ); }
    ~WOt() { T::Detach(); }
};
typedef WOt<DLL_MCAD_OUTLINE> WO;
typedef WOt<DLL_IGES_GEOM_PCB> WP;

static string wdump( MCAD_SEGMENT* s )
{
    if( !s ) return "null";
    WS w( s );
    MCAD_SEGTYPE t = MCAD_SEGTYPE_NONE;
    MCAD_POINT a, b, c, d, e;
    double r = 0, a0 = 0, a1 = 0, m0 = 0, m1 = 0;
    bool cw = false;
    if( !w.GetSegType( t ) || !w.GetFirstPoint( a ) || !w.GetLastPoint( b ) || !w.GetCenter( c ) || !w.GetRadius( r ) || !w.GetStart( d ) || !w.GetEnd( e )
        || !w.GetStartAngle( a0 ) || !w.GetEndAngle( a1 ) || !w.GetFirstAngle( m0 ) || !w.GetLastAngle( m1 ) || !w.IsCW( cw ) || !w.IsValid() || w.GetRawPtr() != s )
        return "WRAP a valid wrapper refused";
    switch( t )
    {
    case MCAD_SEGTYPE_LINE: return "L:" + fp( a ) + ":" + fp( b );
    case MCAD_SEGTYPE_CIRCLE: return "C:" + fp( c ) + ":" + fd( r ) + ":" + fp( a ) + ":" + fp( b );
    case MCAD_SEGTYPE_ARC: return "A:" + fp( c ) + ":" + fd( r ) + ":" + fp( a ) + ":" + fp( b ) + ":" + ( cw ? "1" : "0" ) + ":" + fd( m0 ) + ":" + fd( m1 )
        + ":" + fp( d ) + ":" + fp( e ) + ":" + fd( a0 ) + ":" + fd( a1 );
    default: return "N";
    }
}

static string wdump( MCAD_OUTLINE* o, int depth )
{
    WO w( o );
    bool cl = false;
    if( !w.IsClosed( cl ) ) return "WRAP IsClosed";
    string r = cl ? "closed" : "open";
    MCAD_SEGMENT** l = (MCAD_SEGMENT**) 1;
    int n = -1;
    bool k = w.GetSegments( l, n );
    if( k != ( n > 0 ) || k != ( l != NULL ) ) return "WRAP GetSegments";
    for( int i = 0; i < n; ++i ) r += " " + wdump( l[i] );
    delete[] l;
    k = w.GetDrillHoles( l, n );
    if( k != ( n > 0 ) || k != ( l != NULL ) ) return "WRAP GetDrillHoles";
    for( int i = 0; i < n; ++i ) r += " hole=" + wdump( l[i] );
    delete[] l;
    MCAD_OUTLINE** c = (MCAD_OUTLINE**) 1;
    k = w.GetCutouts( c, n );
    if( k != ( n > 0 ) || k != ( c != NULL ) ) return "WRAP GetCutouts";
    for( int i = 0; i < n; ++i ) r += " cut={ " + ( depth < 5 ? wdump( c[i], depth + 1 ) : string( "..." ) ) + " }";
    delete[] c;
    return r;
}

// results of an operation which may take the object over
template<class W> static string taken( bool ok, bool err, bool live, W& w )
{
    if( ok && ( w.IsValid() || w.GetRawPtr() ) ) return "WRAP still attached after the object was handed over";
    if( !ok && w.IsValid() != live ) return "WRAP validity";
    return string( ok ? "1" : "0" ) + ( err ? " err" : " ok" ) + ( live ? " live" : " dead" );
}

template<class T> static void grow( T**& l, int& n, vector<T*>& s )      // appends what is new to s
{
    for( int i = (int) s.size(); i < n; ++i ) s.push_back( l[i] );
}

static bool viaWrapper()
{
    const string c = arg( 0 );
    string err;
    if( c == "sline" )
    {
        if( S.count( arg( 1 ) ) ) { delete S[arg( 1 )]; S.erase( arg( 1 ) ); }
        DLL_MCAD_SEGMENT w( alt() );
        bool ok = w.SetParams( pt( 2 ), pt( 4 ) );
        S[arg( 1 )] = w.GetRawPtr();
        w.Detach();
        RB( ok );
    }
    else if( c == "sarc" )
    {
        if( S.count( arg( 1 ) ) ) { delete S[arg( 1 )]; S.erase( arg( 1 ) ); }
        DLL_MCAD_SEGMENT w( alt() );
        bool ok = w.SetParams( pt( 2 ), pt( 4 ), pt( 6 ), iarg( 8 ) != 0 );
        S[arg( 1 )] = w.GetRawPtr();
        w.Detach();
        RB( ok );
    }
    else if( c == "snew" )
    {
        if( S.count( arg( 1 ) ) ) { delete S[arg( 1 )]; S.erase( arg( 1 ) ); }
        DLL_MCAD_SEGMENT w( true );
        S[arg( 1 )] = w.GetRawPtr();
        if( alt() && w.NewSegment() )
        {
            MCAD_SEGMENT* s = w.GetRawPtr();
            if( s == S[arg( 1 )] ) { R( "WRAP NewSegment" ); return true; }
            delete S[arg( 1 )];         // the first one was only detached
            S[arg( 1 )] = s;
        }
        w.Detach();
        RB( true );
    }
    else if( c == "sdel" )
    {
        MCAD_SEGMENT* s = seg( arg( 1 ) );
        bool* live = new bool( false );
        s->AttachValidFlag( live );
        if( alt() )
        {
            DLL_MCAD_SEGMENT w( false );
            w.Attach( s );
            if( alt() ) { w.DelSegment(); if( w.IsValid() || w.GetRawPtr() ) { R( "WRAP DelSegment" ); return true; } }
        }
        else
        {
            WS w( s );
            delete s;
            MCAD_POINT p;
            double x;
            if( w.IsValid() || w.GetRawPtr() || w.GetLength( x ) || w.GetMidpoint( p ) || w.GetStart( p ) ) { R( "WRAP works on a deleted segment" ); return true; }
        }
        if( *live ) { R( "WRAP the segment still exists" ); return true; }
        delete live;
        S.erase( arg( 1 ) );
        RB( true );
    }
    else if( c == "sget" ) R( wdump( seg( arg( 1 ) ) ) );
    else if( c == "smeas" )
    {
        WS w( seg( arg( 1 ) ) );
        MCAD_POINT a, b, m;
        bool ok = w.GetBoundingBox( a, b );
        bool mk = w.GetMidpoint( m );
        double l = -1;
        if( !w.GetLength( l ) ) { R( "WRAP GetLength" ); return true; }
        R( string( ok ? "1 " : "0 " ) + fp( a ) + " " + fp( b ) + ( mk ? " 1 " : " 0 " ) + fp( m ) + " " + fd( l ) );
    }
    else if( c == "isect" )
    {
        WS w( seg( arg( 1 ) ) ), v( seg( arg( 2 ) ) );
        MCAD_INTERSECT_FLAG f = MCAD_IFLAG_MULTIEDGE;
        MCAD_POINT* l = NULL;
        int n = 0;
        bool ok = alt() ? w.GetIntersections( v, l, n, f ) : w.GetIntersections( seg( arg( 2 ) ), l, n, f );
        string r = string( ok ? "1 " : "0 " ) + IFL[f];
        for( int i = 0; i < n; ++i ) r += " " + fp( l[i] );
        delete[] l;
        R( r );
    }
    else if( c == "split" )
    {
        WS w( seg( arg( 1 ) ) );
        vector<MCAD_POINT> l;
        vector<MCAD_POINT*> lp;
        for( size_t i = 3; i + 1 < A.size(); i += 2 ) l.push_back( pt( i ) );
        for( size_t i = 0; i < l.size(); ++i ) lp.push_back( &l[i] );
        int n = alt() ? 2 : 0;      // new segments are appended to those in the list
        MCAD_SEGMENT** s = n ? new MCAD_SEGMENT*[2] : NULL;
        MCAD_SEGMENT* mark = (MCAD_SEGMENT*) &l;
        if( n ) s[0] = s[1] = mark;
        int n0 = n;
        bool ok = w.Split( lp.empty() ? NULL : &lp[0], (int) lp.size(), s, n );
        if( n0 && ( n < 2 || s[0] != mark || s[1] != mark ) ) { R( "WRAP Split lost the list" ); return true; }
        string r = string( lp.empty() ? "" : ok ? "1 " : "0 " ) + ( lp.empty() ? "x " : "" ) + fi( n - n0 ) + " " + wdump( seg( arg( 1 ) ) );
        for( int i = n0; i < n; ++i ) r += " " + wdump( s[i] );
        for( int i = n0; i < n; ++i ) put( arg( 2 ) + fi( i - n0 ), s[i] );
        delete[] s;
        R( r );
    }
    else if( c == "onew" )
    {
        if( O.count( arg( 1 ) ) ) { delete O[arg( 1 )]; O.erase( arg( 1 ) ); }
        DLL_MCAD_OUTLINE* w = A.size() > 2 && arg( 2 ) == "pcb" ? new DLL_IGES_GEOM_PCB( true ) : new DLL_MCAD_OUTLINE( true );
        MCAD_OUTLINE* o = w->GetRawPtr();
        if( alt() && w->NewOutline() )
        {
            if( o == w->GetRawPtr() ) { R( "WRAP NewOutline" ); return true; }
            delete o;                   // the first one was only detached
            o = w->GetRawPtr();
        }
        O[arg( 1 )] = o;
        w->Detach();
        delete w;
        RB( true );
    }
    else if( c == "odel" )
    {
        MCAD_OUTLINE* o = oln( arg( 1 ) );
        bool* live = new bool( false );
        o->AttachValidFlag( live );
        if( alt() )
        {
            DLL_MCAD_OUTLINE w( false );
            w.Attach( o );
            if( alt() ) { w.DelOutline(); if( w.IsValid() || w.GetRawPtr() ) { R( "WRAP DelOutline" ); return true; } }
        }
        else
        {
            WO w( o );
            delete o;
            bool b;
            if( w.IsValid() || w.GetRawPtr() || w.IsClosed( b ) || w.IsContiguous( b ) ) { R( "WRAP works on a deleted outline" ); return true; }
        }
        if( *live ) { R( "WRAP the outline still exists" ); return true; }
        delete live;
        O.erase( arg( 1 ) );
        RB( true );
    }
    else if( c == "oseg" || c == "oaddc" || c == "osubc" || c == "ocutc" )
    {
        bool e = false;
        WO o( oln( arg( 1 ) ) );
        MCAD_SEGMENT* s = seg( arg( 2 ) );
        bool* live = new bool( false );
        s->AttachValidFlag( live );
        string r;
        {
            WS w( s );
            bool d = alt(), ok;
            if( d ) ok = c == "oseg" ? o.AddSegment( w, e ) : c == "oaddc" ? o.AddOutline( w, e ) : c == "osubc" ? o.SubOutline( w, e ) : o.AddCutout( w, iarg( 3 ) != 0, e );
            else ok = c == "oseg" ? o.AddSegment( s, e ) : c == "oaddc" ? o.AddOutline( s, e ) : c == "osubc" ? o.SubOutline( s, e ) : o.AddCutout( s, iarg( 3 ) != 0, e );
            if( !d && w.IsValid() ) w.Detach();
            else if( !d && *live ) r = "WRAP validity";
            if( d ) r = taken( ok, e, *live, w );
            else if( r.empty() ) r = string( ok ? "1" : "0" ) + ( e ? " err" : " ok" ) + ( *live ? " live" : " dead" );
            if( ok || !*live ) S.erase( arg( 2 ) );
        }
        if( *live ) s->DetachValidFlag( live );
        delete live;
        R( r );
    }
    else if( c == "oadd" || c == "osub" || c == "ocut" )
    {
        bool e = false;
        WO o( oln( arg( 1 ) ) );
        MCAD_OUTLINE* s = oln( arg( 2 ) );
        bool* live = new bool( false );
        s->AttachValidFlag( live );
        string r;
        {
            WO w( s );
            bool d = alt(), ok;
            if( d ) ok = c == "oadd" ? o.AddOutline( w, e ) : c == "osub" ? o.SubOutline( w, e ) : o.AddCutout( w, iarg( 3 ) != 0, e );
            else ok = c == "oadd" ? o.AddOutline( s, e ) : c == "osub" ? o.SubOutline( s, e ) : o.AddCutout( s, iarg( 3 ) != 0, e );
            if( !d && w.IsValid() ) w.Detach();
            else if( !d && *live ) r = "WRAP validity";
            if( d ) r = taken( ok, e, *live, w );
            else if( r.empty() ) r = string( ok ? "1" : "0" ) + ( e ? " err" : " ok" ) + ( *live ? " live" : " dead" );
            if( ok || !*live ) O.erase( arg( 2 ) );
        }
        if( *live ) s->DetachValidFlag( live );
        delete live;
        R( r );
    }
    else if( c == "oinside" )
    {
        string r;
        WO o( oln( arg( 1 ) ) );
        for( size_t i = 2; i + 1 < A.size(); i += 2 )
        {
            bool e = false;
            bool in = o.IsInside( pt( i ), e );
            r += e ? 'e' : in ? '1' : '0';
        }
        R( r );
    }
    else if( c == "ocontig" ) { WO o( oln( arg( 1 ) ) ); bool b = false; if( !o.IsContiguous( b ) ) R( "WRAP" ); else RB( b ); }
    else if( c == "oclosed" ) { WO o( oln( arg( 1 ) ) ); bool b = false; if( !o.IsClosed( b ) ) R( "WRAP" ); else RB( b ); }
    else if( c == "odump" ) R( wdump( oln( arg( 1 ) ), 0 ) );
    else if( c == "oerr" )
    {
        WO o( oln( arg( 1 ) ) );
        const char** l = (const char**) 1;
        int n = -1;
        bool k = o.GetErrors( l, n );
        if( k != ( n > 0 ) || k != ( l != NULL ) ) { R( "WRAP GetErrors" ); return true; }
        string r = fi( n );
        for( int i = 0; i < n; ++i ) r += " | " + string( l[i] );
        for( size_t i = 0; i < r.size(); ++i ) if( r[i] == '\n' ) r[i] = ' ';
        delete[] l;
        o.ClearErrors();
        if( o.GetErrors( l, n ) ) { R( "WRAP ClearErrors" ); return true; }
        R( r );
    }
    else if( c == "solid" )
    {
        WP o( oln( arg( 1 ) ) );
        IGES model;
        if( A.size() > 5 ) model.globalData.unitsFlag = (IGES_UNIT) iarg( 5 ), model.globalData.unitsName = "";
        bool e0 = false, e1 = false, e2 = false;
        double top = darg( 2 ), bot = darg( 3 );
        IGES_ENTITY_144** s = NULL;
        int n = 0;
        bool a = o.GetVerticalSurface( &model, e0, s, n, top, bot );
        int nv = n;
        IGES_ENTITY_144* first = n ? s[0] : NULL;
        bool b = o.GetTrimmedPlane( &model, e1, s, n, top, false );
        bool d = o.GetTrimmedPlane( &model, e2, s, n, bot, true );
        if( nv && ( n < nv || s[0] != first ) ) { R( "WRAP the list of surfaces" ); return true; }
        for( int i = 0; i < n; ++i ) if( !s[i] || s[i]->GetEntityType() != 144 || s[i]->GetParentIGES() != &model ) { R( "WRAP surface" ); return true; }
        delete[] s;
        bool w = model.Write( arg( 4 ).c_str(), true );
        R( string( a ? "1" : "0" ) + ( b ? "1" : "0" ) + ( d ? "1" : "0" ) + ( e0 ? "1" : "0" ) + ( e1 ? "1" : "0" ) + ( e2 ? "1" : "0" ) + ( w ? "1 " : "0 " )
            + fi( nv ) + " " + fi( n ) );
    }
    else if( c == "pieces" )
    {
        WP o( oln( arg( 1 ) ) );
        IGES model;
        string r;
        MCAD_SEGMENT** sl = NULL;
        int ns = 0;
        o.GetSegments( sl, ns );
        IGES_CURVE** cl = NULL;
        IGES_ENTITY_126** nl = NULL;
        IGES_ENTITY_144** wl = NULL;
        int nc = 0, nn = 0, nw = 0;
        vector<IGES_CURVE*> vc;
        vector<IGES_ENTITY_126*> vn;
        for( int i = 0; i < ns; ++i )
        {
            int c0 = nc, n0 = nn, w0 = nw;
            bool a = o.GetCurves( &model, cl, nc, darg( 2 ), sl[i] );
            bool b = o.GetCurveOnPlane( &model, nl, nn, darg( 3 ), darg( 4 ), darg( 5 ), darg( 6 ), darg( 2 ), sl[i], iarg( 7 ) != 0 );
            bool d = o.GetSegmentWall( &model, wl, nw, darg( 2 ), darg( 2 ) - 1.0, sl[i], iarg( 7 ) != 0 );
            grow( cl, nc, vc );
            grow( nl, nn, vn );
            r += string( a ? "1" : "0" ) + ( b ? "1" : "0" ) + ( d ? "1 " : "0 " ) + fi( nc - c0 ) + "," + fi( nn - n0 ) + "," + fi( nw - w0 ) + " ";
        }
        for( int i = 0; i < nc; ++i ) if( cl[i] != vc[i] ) { R( "WRAP the list of curves" ); return true; }
        for( int i = 0; i < nn; ++i ) if( nl[i] != vn[i] ) { R( "WRAP the list of curves on the plane" ); return true; }
        list<IGES_CURVE*> lc( vc.begin(), vc.end() );
        list<IGES_ENTITY_126*> ln( vn.begin(), vn.end() );
        vector<IGES_ENTITY_144*> vw;
        grow( wl, nw, vw );
        r += curveEnds( lc, ln, vw );
        delete[] sl;
        delete[] cl;
        delete[] nl;
        delete[] wl;
        R( r );
    }
    else return false;
    ++wused;
    return true;
}

// wrappers which live on, and independent marks of the life of the objects
static map<string, DLL_MCAD_SEGMENT*> HS;
static map<string, DLL_MCAD_OUTLINE*> HO;
struct Id { string n; bool* live; };
static map<MCAD_SEGMENT*, Id> NS;           // everything that was seen, with a mark of its life
static map<MCAD_OUTLINE*, Id> NO;
static int nid = 0;

template<class T> static void purge( map<T*, Id>& m )
{
    for( typename map<T*, Id>::iterator i = m.begin(); i != m.end(); )
    {
        if( *i->second.live ) { ++i; continue; }
        delete i->second.live;
        m.erase( i++ );
    }
}

template<class T> static void see( map<T*, Id>& m, T* p, const char* t )
{
    if( m.count( p ) ) return;
    Id d;
    d.n = t + fi( ++nid );
    d.live = new bool( false );
    p->AttachValidFlag( d.live );
    m[p] = d;
}

static string deadSeg( DLL_MCAD_SEGMENT& w )
{
    MCAD_SEGTYPE t;
    double d;
    MCAD_POINT p, q;
    bool b;
    MCAD_INTERSECT_FLAG f;
    MCAD_POINT* l = NULL;
    int n = 0;
    MCAD_SEGMENT s;
    MCAD_POINT* lp = &p;
    MCAD_SEGMENT** ns = NULL;
    if( w.GetSegType( t ) || w.GetRadius( d ) || w.GetStartAngle( d ) || w.GetEndAngle( d ) || w.GetFirstAngle( d ) || w.GetLastAngle( d ) || w.GetCenter( p )
        || w.GetStart( p ) || w.GetEnd( p ) || w.GetFirstPoint( p ) || w.GetLastPoint( p ) || w.GetLength( d ) || w.IsCW( b ) || w.GetIntersections( &s, l, n, f )
        || w.GetIntersections( w, l, n, f ) || w.GetBoundingBox( p, q ) || w.GetMidpoint( p ) || w.Split( &lp, 1, ns, n ) || w.GetRawPtr() ) return "WORKS";
    w.Detach();
    w.DelSegment();
    return "-";
}

static string deadOln( DLL_MCAD_OUTLINE& w )
{
    MCAD_SEGMENT** l;
    MCAD_OUTLINE** c;
    const char** e;
    int n;
    bool b;
    MCAD_SEGMENT s;
    MCAD_OUTLINE o;
    DLL_MCAD_SEGMENT es( false );
    DLL_MCAD_OUTLINE eo( false );
    if( w.GetSegments( l, n ) || w.GetCutouts( c, n ) || w.GetDrillHoles( l, n ) || w.GetErrors( e, n ) || w.IsClosed( b ) || w.IsContiguous( b ) || w.IsInside( MCAD_POINT(), b )
        || w.AddSegment( &s, b ) || w.AddSegment( es, b ) || w.AddOutline( &o, b ) || w.AddOutline( eo, b ) || w.AddOutline( &s, b ) || w.AddOutline( es, b )
        || w.SubOutline( &o, b ) || w.SubOutline( eo, b ) || w.SubOutline( &s, b ) || w.SubOutline( es, b ) || w.AddCutout( &o, true, b ) || w.AddCutout( eo, true, b )
        || w.AddCutout( &s, false, b ) || w.AddCutout( es, false, b ) || w.GetRawPtr() ) return "WORKS";
    w.ClearErrors();
    DLL_IGES_GEOM_PCB* p = dynamic_cast<DLL_IGES_GEOM_PCB*>( &w );
    if( p )
    {
        IGES m;
        IGES_ENTITY_144** sl = NULL;
        IGES_CURVE** cl = NULL;
        IGES_ENTITY_126** nl = NULL;
        n = 0;
        if( p->GetVerticalSurface( &m, b, sl, n, 1, 0 ) || p->GetTrimmedPlane( &m, b, sl, n, 1, false ) || p->GetCurves( &m, cl, n, 0, &s )
            || p->GetCurveOnPlane( &m, nl, n, 0, 1, 0, 1, 0, &s, false ) || p->GetSegmentWall( &m, sl, n, 1, 0, &s, false ) ) return "WORKS";
    }
    w.Detach();
    w.DelOutline();
    return "-";
}

static void hsee( MCAD_OUTLINE* o )
{
    see( NO, o, "o" );
    list<MCAD_SEGMENT*>* l = o->GetSegments();
    for( list<MCAD_SEGMENT*>::iterator j = l->begin(); j != l->end(); ++j ) see( NS, *j, "s" );
    l = o->GetDrillHoles();
    for( list<MCAD_SEGMENT*>::iterator j = l->begin(); j != l->end(); ++j ) see( NS, *j, "s" );
    list<MCAD_OUTLINE*>* c = o->GetCutouts();
    for( list<MCAD_OUTLINE*>::iterator j = c->begin(); j != c->end(); ++j ) hsee( *j );
}

static void hname()         // looks at everything that exists
{
    purge( NS );
    purge( NO );
    for( map<string, MCAD_SEGMENT*>::iterator i = S.begin(); i != S.end(); ++i ) see( NS, i->second, "s" );
    for( map<string, MCAD_OUTLINE*>::iterator i = O.begin(); i != O.end(); ++i ) hsee( i->second );
}

template<class T> static string nameIn( map<string, T*>& m, T* p )
{
    for( typename map<string, T*>::iterator i = m.begin(); i != m.end(); ++i ) if( i->second == p ) return i->first;
    return "";
}

static MCAD_SEGMENT* sfind( const string& n )      // also a part of an outline: o1.s2, o1.h0
{
    hname();
    map<string, MCAD_SEGMENT*>::iterator i = S.find( n );
    if( i != S.end() ) return i->second;
    size_t d = n.find( '.' );
    if( d == string::npos || !O.count( n.substr( 0, d ) ) ) return NULL;
    list<MCAD_SEGMENT*>* l = n[d + 1] == 's' ? O[n.substr( 0, d )]->GetSegments() : O[n.substr( 0, d )]->GetDrillHoles();
    size_t k = (size_t) atoi( n.c_str() + d + 2 );
    if( l->empty() ) return NULL;
    list<MCAD_SEGMENT*>::iterator j = l->begin();
    for( k %= l->size(); k; --k ) ++j;
    return *j;
}

static MCAD_OUTLINE* ofind( const string& n )
{
    hname();
    map<string, MCAD_OUTLINE*>::iterator i = O.find( n );
    if( i != O.end() ) return i->second;
    size_t d = n.find( '.' );
    if( d == string::npos || !O.count( n.substr( 0, d ) ) ) return NULL;
    list<MCAD_OUTLINE*>* l = O[n.substr( 0, d )]->GetCutouts();
    size_t k = (size_t) atoi( n.c_str() + d + 2 );
    if( l->empty() ) return NULL;
    list<MCAD_OUTLINE*>::iterator j = l->begin();
    for( k %= l->size(); k; --k ) ++j;
    return *j;
}

static bool handles()
{
    const string c = arg( 0 );
    if( c == "wmode" ) { wmode = iarg( 1 ); if( A.size() > 2 ) wcnt = iarg( 2 ); RB( true ); return true; }
    if( c == "wused" ) { R( fi( (int) wused ) ); return true; }
    const string h = arg( 1 );
    if( c == "hs" )             // hs W 0|1 name-of-new
    {
        if( HS.count( h ) || S.count( arg( 3 ) ) ) { R( "gone" ); return true; }
        DLL_MCAD_SEGMENT* w = HS[h] = new DLL_MCAD_SEGMENT( iarg( 2 ) != 0 );
        if( w->GetRawPtr() ) S[arg( 3 )] = w->GetRawPtr();
        hname();
        R( w->IsValid() ? "1 " + NS[w->GetRawPtr()].n : string( "0 -" ) );
        return true;
    }
    if( c == "ho" )             // ho W 0|1 name-of-new base|pcb
    {
        if( HO.count( h ) || O.count( arg( 3 ) ) ) { R( "gone" ); return true; }
        DLL_MCAD_OUTLINE* w = HO[h] = arg( 4 ) == "pcb" ? new DLL_IGES_GEOM_PCB( iarg( 2 ) != 0 ) : new DLL_MCAD_OUTLINE( iarg( 2 ) != 0 );
        if( w->GetRawPtr() ) O[arg( 3 )] = w->GetRawPtr();
        hname();
        R( w->IsValid() ? "1 " + NO[w->GetRawPtr()].n : string( "0 -" ) );
        return true;
    }
    if( c == "hstat" )          // the wrappers and what they stand for
    {
        hname();
        string r;
        for( map<string, DLL_MCAD_SEGMENT*>::iterator i = HS.begin(); i != HS.end(); ++i )
        {
            bool v = i->second->IsValid();
            MCAD_SEGMENT* s = i->second->GetRawPtr();
            r += ( r.empty() ? "" : " " ) + i->first + "=";
            if( v != ( s != NULL ) ) r += "INCONSISTENT";
            else if( !v ) r += deadSeg( *i->second );
            else
            {
                double l = -1, m = s->GetLength();
                r += !i->second->GetLength( l ) || !( l == m || ( l != l && m != m ) ) ? "INCONSISTENT" : NS.count( s ) ? NS[s].n : "?";
            }
        }
        for( map<string, DLL_MCAD_OUTLINE*>::iterator i = HO.begin(); i != HO.end(); ++i )
        {
            bool v = i->second->IsValid();
            MCAD_OUTLINE* s = i->second->GetRawPtr();
            r += ( r.empty() ? "" : " " ) + i->first + "=";
            bool b;
            if( v != ( s != NULL ) ) r += "INCONSISTENT";
            else if( !v ) r += deadOln( *i->second );
            else r += !i->second->IsClosed( b ) || b != s->IsClosed() ? "INCONSISTENT" : NO.count( s ) ? NO[s].n : "?";
        }
        r += " live";
        for( map<MCAD_SEGMENT*, Id>::iterator i = NS.begin(); i != NS.end(); ++i ) r += " " + i->second.n;
        for( map<MCAD_OUTLINE*, Id>::iterator i = NO.begin(); i != NO.end(); ++i ) r += " " + i->second.n;
        R( r );
        return true;
    }
    if( c[0] != 'h' ) return false;
    DLL_MCAD_SEGMENT* ws = HS.count( h ) ? HS[h] : NULL;
    DLL_MCAD_OUTLINE* wo = HO.count( h ) ? HO[h] : NULL;
    if( !ws && !wo ) { R( "gone" ); return true; }
    hname();
    MCAD_SEGMENT* rs = ws ? ws->GetRawPtr() : NULL;
    MCAD_OUTLINE* ro = wo ? wo->GetRawPtr() : NULL;
    string nm = rs ? nameIn( S, rs ) : ro ? nameIn( O, ro ) : "";
    bool own = !nm.empty();      // not a part of an outline
    if( c == "hattach" )
    {
        bool ok;
        if( ws ) { MCAD_SEGMENT* s = sfind( arg( 2 ) ); ok = ws->Attach( s ); R( string( s ? "e " : "n " ) + ( ok ? "1 " : "0 " ) + ( s ? NS[s].n : string( "-" ) ) ); }
        else
        {
            MCAD_OUTLINE* s = ofind( arg( 2 ) );
            ok = wo->Attach( s );
            R( string( s ? "e " : "n " ) + ( ok ? "1 " : "0 " ) + ( s ? NO[s].n + ( s->GetOutlineType() == MCAD_OT_PCB ? " pcb" : " base" ) : string( "-" ) ) );
        }
    }
    else if( c == "hdetach" ) { if( ws ) ws->Detach(); else wo->Detach(); RB( true ); }
    else if( c == "hnew" )
    {
        bool ok = false;
        if( ws && !S.count( arg( 2 ) ) && ( ok = ws->NewSegment() ) ) S[arg( 2 )] = ws->GetRawPtr();
        if( wo && !O.count( arg( 2 ) ) && ( ok = wo->NewOutline() ) ) O[arg( 2 )] = wo->GetRawPtr();
        hname();
        R( ok ? "1 " + ( ws ? NS[ws->GetRawPtr()].n : NO[wo->GetRawPtr()].n ) : string( "0 -" ) );
    }
    else if( c == "hset" )      // a segment wrapper makes a line, creating the segment if it has none
    {
        if( !ws || S.count( arg( 2 ) ) ) { R( "gone" ); return true; }
        if( rs && !own ) { R( "owned" ); return true; }
        bool had = rs != NULL;
        bool ok = ws->SetParams( pt( 3 ), pt( 5 ) );
        if( !had && ws->GetRawPtr() ) S[arg( 2 )] = ws->GetRawPtr();
        hname();
        R( string( ok ? "1 " : "0 " ) + ( ws->GetRawPtr() ? NS[ws->GetRawPtr()].n : string( "-" ) ) );
    }
    else if( c == "hdelobj" )   // only what no outline owns
    {
        if( ( rs || ro ) && !own ) { R( "owned" ); return true; }
        if( ws ) { ws->DelSegment(); if( rs ) S.erase( nm ); }
        else { wo->DelOutline(); if( ro ) O.erase( nm ); }
        RB( true );
    }
    else if( c == "hdel" )      // destroys the wrapper and what it is attached to
    {
        if( ( rs || ro ) && !own ) { R( "owned" ); return true; }
        if( ws ) { delete ws; HS.erase( h ); if( rs ) S.erase( nm ); }
        else { delete wo; HO.erase( h ); if( ro ) O.erase( nm ); }
        RB( true );
    }
    else return false;
    return true;
}

static bool wrapCommand()
{
    try
    {
        if( handles() ) return true;
        return wmode && viaWrapper();
    }
    catch( string& e ) { R( e ); return true; }
}

static void wrapCleanup()
{
    for( map<string, DLL_MCAD_SEGMENT*>::iterator i = HS.begin(); i != HS.end(); ++i ) { i->second->Detach(); delete i->second; }
    for( map<string, DLL_MCAD_OUTLINE*>::iterator i = HO.begin(); i != HO.end(); ++i ) { i->second->Detach(); delete i->second; }
    HS.clear();
    HO.clear();
    for( map<MCAD_SEGMENT*, Id>::iterator i = NS.begin(); i != NS.end(); ++i ) { if( *i->second.live ) i->first->DetachValidFlag( i->second.live ); delete i->second.live; }
    for( map<MCAD_OUTLINE*, Id>::iterator i = NO.begin(); i != NO.end(); ++i ) { if( *i->second.live ) i->first->DetachValidFlag( i->second.live ); delete i->second.live; }
    NS.clear();
    NO.clear();
    nid = 0;
    wmode = 0;
    wused = 0;
}
