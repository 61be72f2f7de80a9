// The DLL_IGES_* wrapper classes.  In "wmode 1" the commands of vh which have a
// counterpart in the wrappers are carried out through a wrapper; the results have
// to be the same.  The w* commands work with wrappers which live on.
#include <api/all_api_entities.h>
#include <api/dll_iges.h>

static int wmode = 0;
static unsigned wcnt = 0;
static map<string, DLL_IGES*> D;            // models which were made by a DLL_IGES
static map<string, DLL_IGES*> DX;           // DLL_IGES objects whose model has been deleted by other means
static map<string, DLL_IGES_ENTITY*> WR;    // wrappers which live on
static long wused = 0, wfall = 0;

static bool alt() { return ( ++wcnt & 1 ) != 0; }
static int alt( int n ) { return (int) ( ++wcnt % n ); }

static DLL_IGES_ENTITY* mkWrap( int t, IGES* p, bool create )
{
    switch( t )
    {
#define MW( n ) case n: return new DLL_IGES_ENTITY_##n( p, create );
        MW( 100 ) MW( 102 ) MW( 104 ) MW( 110 ) MW( 120 ) MW( 122 ) MW( 124 ) MW( 126 ) MW( 128 )
        MW( 142 ) MW( 144 ) MW( 308 ) MW( 314 ) MW( 406 ) MW( 408 )
#undef MW
    }
    return NULL;
}

static DLL_IGES_ENTITY* mkWrap( int t, DLL_IGES& p, bool create )
{
    switch( t )
    {
#define MW( n ) case n: return new DLL_IGES_ENTITY_##n( p, create );
        MW( 100 ) MW( 102 ) MW( 104 ) MW( 110 ) MW( 120 ) MW( 122 ) MW( 124 ) MW( 126 ) MW( 128 )
        MW( 142 ) MW( 144 ) MW( 308 ) MW( 314 ) MW( 406 ) MW( 408 )
#undef MW
    }
    return NULL;
}

// a wrapper which lives as long as the scope
struct Tmp
{
    DLL_IGES_ENTITY* w;
    Tmp( IGES_ENTITY* e ) : w( NULL )
    {
        if( !e ) return;
        w = mkWrap( e->GetEntityType(), (IGES*) NULL, false );
        if( w && !w->Attach( e ) ) R( "WRAP attach refused" );
    }
    Tmp( const Tmp& ) = delete;
    ~Tmp() { delete w; }
};

#define WAS( T ) ( (DLL_IGES_ENTITY_##T*) w )

// a group of numbers which the wrapper reads and writes together
static bool wnums( DLL_IGES_ENTITY* w, int t, const string& f, double* v, int& n, int& k, bool set )
{
    static const struct { int t; const char* g[7]; } G[] = {
        { 100, { "X1", "Y1", "ZT" } }, { 100, { "X2", "Y2" } }, { 100, { "X3", "Y3" } },
        { 104, { "X1", "Y1", "ZT" } }, { 104, { "X2", "Y2" } }, { 104, { "A", "B", "C", "D", "E", "F" } },
        { 110, { "X1", "Y1", "Z1" } }, { 110, { "X2", "Y2", "Z2" } },
        { 120, { "SA", "TA" } }, { 122, { "LX", "LY", "LZ" } }, { 314, { "red", "green", "blue" } }, { 408, { "X", "Y", "Z", "S" } } };
    size_t g = 0;
    const size_t NG = sizeof( G ) / sizeof( G[0] );
    for( ; g < NG; ++g )
    {
        if( G[g].t != t ) continue;
        for( k = 0; k < 7 && G[g].g[k]; ++k ) if( f == G[g].g[k] ) break;
        if( k < 7 && G[g].g[k] ) break;
    }
    if( g == NG ) return false;
    n = 0;
    while( n < 7 && G[g].g[n] ) ++n;
    MCAD_POINT p( v[0], v[1], v[2] );
    double dummy;
    bool a = alt(), ok = false;
    if( set )
    {
        switch( g )
        {
            case 0: ok = a ? WAS( 100 )->SetCircleCenter( v[0], v[1], v[2] ) : WAS( 100 )->SetCircleCenter( p ); break;
            case 1: p.z = 77; ok = a ? WAS( 100 )->SetCircleStart( v[0], v[1] ) : WAS( 100 )->SetCircleStart( p ); break;
            case 2: p.z = 77; ok = a ? WAS( 100 )->SetCircleEnd( v[0], v[1] ) : WAS( 100 )->SetCircleEnd( p ); break;
            case 3: ok = a ? WAS( 104 )->SetConicStart( v[0], v[1], v[2] ) : WAS( 104 )->SetConicStart( p ); break;
            case 4: p.z = 77; ok = a ? WAS( 104 )->SetConicEnd( v[0], v[1] ) : WAS( 104 )->SetConicEnd( p ); break;
            case 5: ok = WAS( 104 )->SetConicParams( v[0], v[1], v[2], v[3], v[4], v[5] ); break;
            case 6: ok = a ? WAS( 110 )->SetLineStart( v[0], v[1], v[2] ) : WAS( 110 )->SetLineStart( p ); break;
            case 7: ok = a ? WAS( 110 )->SetLineEnd( v[0], v[1], v[2] ) : WAS( 110 )->SetLineEnd( p ); break;
            case 8: ok = WAS( 120 )->SetAngles( v[0], v[1] ); break;
            case 9: ok = a ? WAS( 122 )->SetGeneratrixEnd( v[0], v[1], v[2] ) : WAS( 122 )->SetGeneratrixEnd( p ); break;
            case 10: ok = WAS( 314 )->SetColor( v[0], v[1], v[2] ); break;
            case 11: ok = WAS( 408 )->SetSubfigParams( v[0], v[1], v[2], v[3] ); break;
        }
        return ok;
    }
    switch( g )
    {
        case 0: ok = a ? WAS( 100 )->GetCircleCenter( v[0], v[1], v[2] ) : WAS( 100 )->GetCircleCenter( p ); break;
        case 1: ok = a ? WAS( 100 )->GetCircleStart( v[0], v[1], dummy ) : WAS( 100 )->GetCircleStart( p ); break;
        case 2: ok = a ? WAS( 100 )->GetCircleEnd( v[0], v[1], dummy ) : WAS( 100 )->GetCircleEnd( p ); break;
        case 3: ok = a ? WAS( 104 )->GetConicStart( v[0], v[1], v[2] ) : WAS( 104 )->GetConicStart( p ); break;
        case 4: ok = a ? WAS( 104 )->GetConicEnd( v[0], v[1], dummy ) : WAS( 104 )->GetConicEnd( p ); break;
        case 5: ok = WAS( 104 )->GetConicParams( v[0], v[1], v[2], v[3], v[4], v[5] ); a = true; break;
        case 6: ok = a ? WAS( 110 )->GetLineStart( v[0], v[1], v[2] ) : WAS( 110 )->GetLineStart( p ); break;
        case 7: ok = a ? WAS( 110 )->GetLineEnd( v[0], v[1], v[2] ) : WAS( 110 )->GetLineEnd( p ); break;
        case 8: ok = WAS( 120 )->GetAngles( v[0], v[1] ); a = true; break;
        case 9: ok = a ? WAS( 122 )->GetGeneratrixEnd( v[0], v[1], v[2] ) : WAS( 122 )->GetGeneratrixEnd( p ); break;
        case 10: ok = WAS( 314 )->GetColor( v[0], v[1], v[2] ); a = true; break;
        case 11: ok = WAS( 408 )->GetSubfigParams( v[0], v[1], v[2], v[3] ); a = true; break;
    }
    if( !a ) { v[0] = p.x; v[1] = p.y; v[2] = p.z; }
    return ok;
}

// 1/0: result; -1: no such slot in the wrapper; -2: type of the child
static int wLink( DLL_IGES_ENTITY* w, int t, const string& s, IGES_ENTITY* c )
{
    Tmp ct( c );
    bool d = alt() && ( ct.w || !c );
    DLL_IGES_ENTITY_110 nul( (IGES*) NULL, false );
    DLL_IGES_ENTITY& x = ct.w ? *ct.w : nul;        // an empty wrapper stands for NULL
    IGES_CURVE* cc = dynamic_cast<IGES_CURVE*>( c );
    DLL_IGES_CURVE* cw = ct.w ? dynamic_cast<DLL_IGES_CURVE*>( ct.w ) : &nul;
#define CURVE_ARG if( c && !cc ) { badType = true; return -2; }
    if( s == "structure" ) return d ? w->SetStructure( x ) : w->SetStructure( c );
    if( s == "linefont" ) return d ? w->SetLineFontPattern( x ) : w->SetLineFontPattern( c );
    if( s == "level" ) return d ? w->SetLevel( x ) : w->SetLevel( c );
    if( s == "view" ) return d ? w->SetView( x ) : w->SetView( c );
    if( s == "transform" ) return d ? w->SetTransform( x ) : w->SetTransform( c );
    if( s == "labelassoc" ) return d ? w->SetLabelAssoc( x ) : w->SetLabelAssoc( c );
    if( s == "color" )
    {
        if( d && ct.w && ct.w->GetEntityType() == ENT_COLOR_DEFINITION ) return w->SetColor( *(DLL_IGES_ENTITY_314*) ct.w );
        if( d && !c ) { DLL_IGES_ENTITY_314 n314( (IGES*) NULL, false ); return w->SetColor( n314 ); }
        return w->SetColor( c );
    }
    if( s == "opt" ) return d ? w->AddOptionalEntity( x ) : w->AddOptionalEntity( c );
    if( s == "-opt" ) return d ? w->DelOptionalEntity( x ) : w->DelOptionalEntity( c );
    switch( t )
    {
        case 102: if( s == "seg" ) { CURVE_ARG return d ? WAS( 102 )->AddSegment( *cw ) : WAS( 102 )->AddSegment( cc ); } break;
        case 120: if( s == "L" || s == "axis" ) { CURVE_ARG return d ? WAS( 120 )->SetAxis( *cw ) : WAS( 120 )->SetAxis( cc ); }
                  if( s == "C" || s == "gen" ) { CURVE_ARG return d ? WAS( 120 )->SetGeneratrix( *cw ) : WAS( 120 )->SetGeneratrix( cc ); } break;
        case 122: if( s == "DE" ) { CURVE_ARG return WAS( 122 )->SetDirectrix( cc ); } break;
        case 142: if( s == "SPTR" ) return d ? WAS( 142 )->SetSurface( x ) : WAS( 142 )->SetSurface( c );
                  if( s == "BPTR" ) return d ? WAS( 142 )->SetParameterSpaceBound( x ) : WAS( 142 )->SetParameterSpaceBound( c );
                  if( s == "CPTR" ) return d ? WAS( 142 )->SetModelSpaceBound( x ) : WAS( 142 )->SetModelSpaceBound( c ); break;
        case 144:
        {
            if( s == "PTS" ) return d ? WAS( 144 )->SetSurface( x ) : WAS( 144 )->SetSurface( c );
            IGES_ENTITY_142* b = dynamic_cast<IGES_ENTITY_142*>( c );
            if( ( s == "PTO" || s == "PTI" || s == "-PTI" ) && c && !b ) { badType = true; return -2; }
            DLL_IGES_ENTITY_142 n142( (IGES*) NULL, false );
            DLL_IGES_ENTITY_142& y = ct.w && b ? *(DLL_IGES_ENTITY_142*) ct.w : n142;
            if( s == "PTO" ) return d ? WAS( 144 )->SetBoundCurve( y ) : WAS( 144 )->SetBoundCurve( b );
            if( s == "PTI" ) return d ? WAS( 144 )->AddCutout( y ) : WAS( 144 )->AddCutout( b );
            if( s == "-PTI" ) return d ? WAS( 144 )->DelCutout( y ) : WAS( 144 )->DelCutout( b );
            break;
        }
        case 308:
        {
            DLL_IGES_ENTITY* xp = c ? ct.w : ( alt() ? (DLL_IGES_ENTITY*) NULL : &nul );
            if( s == "DE" ) return d ? WAS( 308 )->AddDE( xp ) : WAS( 308 )->AddDE( c );
            if( s == "-DE" ) return d ? WAS( 308 )->DelDE( xp ) : WAS( 308 )->DelDE( c );
            break;
        }
        case 408: if( s == "DE" )
        {
            IGES_ENTITY_308* b = dynamic_cast<IGES_ENTITY_308*>( c );
            if( c && !b ) { badType = true; return -2; }
            return d ? WAS( 408 )->SetSubfigure( b ) : WAS( 408 )->SetDE( b );
        }
        break;
    }
    return -1;
}

static bool wGetLinks( DLL_IGES_ENTITY* w, int t, const string& s, vector<IGES_ENTITY*>& r )
{
    IGES_ENTITY* p = NULL;
    IGES_CURVE* cu = NULL;
    r.clear();
    if( s == "structure" ) ONE( w->GetStructure( p ) )
    if( s == "linefont" ) ONE( w->GetLineFontPatternEntity( p ) )
    if( s == "level" ) ONE( w->GetLevelEntity( p ) )
    if( s == "view" ) ONE( w->GetView( p ) )
    if( s == "transform" ) ONE( w->GetTransform( p ) )
    if( s == "labelassoc" ) ONE( w->GetLabelAssoc( p ) )
    if( s == "color" ) ONE( w->GetColorEntity( p ) )
    if( s == "opt" )
    {
        size_t n = 0;
        IGES_ENTITY** l = NULL;
        if( w->GetOptionalEntities( n, l ) )
            for( size_t i = 0; i < n; ++i ) r.push_back( l[i] );
        return true;
    }
    switch( t )
    {
        case 102: if( s == "seg" ) { for( int i = 0; i < WAS( 102 )->GetNCurves(); ++i ) r.push_back( WAS( 102 )->GetCurve( i ) ); return true; } break;
        case 120: if( s == "L" || s == "axis" ) ONEC( WAS( 120 )->GetAxis( &cu ) )
                  if( s == "C" || s == "gen" ) ONEC( WAS( 120 )->GetGeneratrix( &cu ) ) break;
        case 122: if( s == "DE" ) ONEC( WAS( 122 )->GetDirectrix( cu ) ) break;
        case 142: if( s == "SPTR" ) ONE( WAS( 142 )->GetSurface( &p ) )
                  if( s == "BPTR" ) ONE( WAS( 142 )->GetParameterSpaceBound( &p ) )
                  if( s == "CPTR" ) ONE( WAS( 142 )->GetModelSpaceBound( &p ) ) break;
        case 144: if( s == "PTS" ) ONE( WAS( 144 )->GetSurface( p ) )
                  if( s == "PTO" ) { IGES_ENTITY_142* q = NULL; WAS( 144 )->GetBoundCurve( q ); if( q ) r.push_back( q ); return true; }
                  if( s == "PTI" )
                  {
                      size_t n = 0;
                      IGES_ENTITY_142** l = NULL;
                      if( WAS( 144 )->GetCutouts( n, l ) )
                          for( size_t i = 0; i < n; ++i ) r.push_back( l[i] );
                      int k = -1;
                      WAS( 144 )->GetNCutouts( k );
                      if( k != (int) r.size() ) R( "WRAP GetNCutouts differs from GetCutouts" );
                      return true;
                  }
                  break;
        case 308: if( s == "DE" )
                  {
                      size_t n = 0, k = 0;
                      IGES_ENTITY** l = NULL;
                      bool ok = WAS( 308 )->GetDEList( n, l );
                      if( ok )
                          for( size_t i = 0; i < n; ++i ) r.push_back( l[i] );
                      if( !WAS( 308 )->GetNumDE( k ) || k != r.size() ) R( "WRAP GetNumDE differs from GetDEList" );
                      return true;
                  }
                  break;
        case 408: if( s == "DE" ) { IGES_ENTITY_308* q = NULL; if( alt() ) WAS( 408 )->GetDE( q ); else WAS( 408 )->GetSubfigure( q );
                      if( q ) r.push_back( q ); return true; } break;
    }
    return false;
}

static string cstr( bool ok, const char* p ) { return ok && p ? enc( p ) : string( "%" ); }

// an object whose model is gone has to say so, and to do nothing
static void deadModel( DLL_IGES* d )
{
    string bad;
    const char* cp = "x";
    char const** cl = NULL;
    size_t n = 7;
    int i = 0;
    double v = 0;
    IGES_UNIT u;
    IGES_DRAFTING_STANDARD ds;
    IGES_ENTITY* ep = NULL;
    DLL_IGES_ENTITY* dp = NULL;
    IGES_ENTITY_308* p308 = NULL;
    DLL_IGES_ENTITY_110 w110( *d, true );
    IGES other;
#define DM( call ) if( call ) bad += string( " " ) + #call;
    DM( d->Clear() ) DM( d->Read( "/nonexistent" ) ) DM( d->Write( "/nonexistent/x", true ) ) DM( d->Export( &other, &p308 ) ) DM( d->Export( d, &p308 ) )
    DM( d->GetNewPartName() ) DM( d->GetNewAssemblyName( NULL ) ) DM( d->NewAPIEntity( ENT_LINE, dp ) ) DM( d->NewIGESEntity( ENT_LINE, &ep ) )
    DM( d->AddEntity( &w110 ) ) DM( d->DelEntity( &w110 ) ) DM( d->UnlinkEntity( &w110 ) ) DM( d->ConvertUnits( UNIT_MM ) ) DM( d->ChangeModelScale( 2 ) )
    DM( d->GetHeaders( n, cl ) ) DM( d->GetNHeaderLines() ) DM( d->AddToHeader( cp ) ) DM( d->GetProductID_SendingSystem( cp ) )
    DM( d->SetProductID_SendingSystem( "x" ) ) DM( d->GetNativeSystemID( cp ) ) DM( d->SetNativeSystemID( "x" ) ) DM( d->GetPreprocessorVersion( cp ) )
    DM( d->GetProductID_ReceivingSystem( cp ) ) DM( d->SetProductID_ReceivingSystem( "x" ) ) DM( d->GetUnitsFlag( u ) ) DM( d->SetUnitsFlag( UNIT_MM ) )
    DM( d->GetUnitsName( cp ) ) DM( d->GetMaxLineWidthGrad( i ) ) DM( d->SetMaxLineWidthGrad( 2 ) ) DM( d->GetMaxLineWidth( v ) )
    DM( d->SetMaxLineWidth( 1.0 ) ) DM( d->GetCreationDate( cp ) ) DM( d->GetMinResolution( v ) ) DM( d->SetMinResolution( 1e-6 ) )
    DM( d->GetAuthor( cp ) ) DM( d->SetAuthor( "x" ) ) DM( d->GetOrganization( cp ) ) DM( d->SetOrganization( "x" ) ) DM( d->GetIGESVersionFlag( i ) )
    DM( d->GetDraftingStandard( ds ) ) DM( d->SetDraftingStandard( DRAFT_NONE ) ) DM( d->GetModificationDate( cp ) ) DM( d->GetApplicationNote( cp ) )
    DM( d->SetApplicationNote( "x" ) )
    d->Compact();
    d->Cull();
    DM( d->GetRawPtr() ) DM( w110.IsValid() )
    R( bad.empty() ? "1" : "WRAP works on a deleted model:" + enc( bad ) );
}

// a wrapper without an entity
static string deadWrapper( DLL_IGES_ENTITY* w )
{
    string bad;
    int i = 0;
    bool b = false;
    double v = 0, v2 = 0, v3 = 0, v4 = 0;
    size_t n = 0;
    IGES_ENTITY** el = NULL;
    IGES_ENTITY* e = NULL;
    char const** cl = NULL;
    const char* cp = "text";
    IGES* ip = NULL;
    IGES_LINEFONT_PATTERN lf;
    IGES_COLOR co;
    IGES_STAT_DEPENDS de;
    IGES_STAT_USE us;
    IGES_STAT_HIER hi;
    MCAD_POINT pt;
    IGES_CURVE* cu = NULL;
    DLL_IGES_ENTITY_110 other( (IGES*) NULL, true );
    DLL_IGES_ENTITY_314 col( (IGES*) NULL, true );
    IGES_ENTITY* oe = other.GetRawPtr();
    DM( w->GetNOptionalEntities( i ) ) DM( w->GetOptionalEntities( n, el ) ) DM( w->AddOptionalEntity( oe ) ) DM( w->AddOptionalEntity( other ) )
    DM( w->DelOptionalEntity( oe ) ) DM( w->GetNComments( i ) ) DM( w->GetComments( n, cl ) ) DM( w->AddComment( cp ) ) DM( w->DelComment( 0 ) )
    DM( w->ClearComments() ) DM( w->SetParentIGES( (IGES*) NULL ) ) DM( w->GetParentIGES( ip ) ) DM( w->GetEntityType( i ) ) DM( w->GetEntityForm( i ) )
    DM( w->SetEntityForm( 0 ) ) DM( w->SetStructure( oe ) ) DM( w->GetStructure( e ) ) DM( w->SetLineFontPattern( LINEFONT_SOLID ) )
    DM( w->SetLineFontPattern( oe ) ) DM( w->GetLineFontPattern( lf ) ) DM( w->GetLineFontPatternEntity( e ) ) DM( w->SetLevel( 1 ) ) DM( w->SetLevel( oe ) )
    DM( w->GetLevel( i ) ) DM( w->GetLevelEntity( e ) ) DM( w->SetView( oe ) ) DM( w->GetView( e ) ) DM( w->SetTransform( oe ) ) DM( w->GetTransform( e ) )
    DM( w->SetLabelAssoc( oe ) ) DM( w->GetLabelAssoc( e ) ) DM( w->SetColor( COLOR_RED ) ) DM( w->SetColor( col ) ) DM( w->SetColor( oe ) )
    DM( w->GetColor( co ) ) DM( w->GetColorEntity( e ) ) DM( w->SetLineWeightNum( 1 ) ) DM( w->GetLineWeightNum( i ) ) DM( w->SetLabel( "A" ) )
    DM( w->GetLabel( cp ) ) DM( w->SetEntitySubscript( 1 ) ) DM( w->GetEntitySubscript( i ) ) DM( w->SetVisibility( true ) ) DM( w->GetVisibility( b ) )
    DM( w->SetDependency( STAT_INDEPENDENT ) ) DM( w->GetDependency( de ) ) DM( w->SetEntityUse( STAT_USE_GEOMETRY ) ) DM( w->GetEntityUse( us ) )
    DM( w->SetHierarchy( STAT_HIER_NO_SUB ) ) DM( w->GetHierarchy( hi ) ) DM( w->Detach() ) DM( w->GetRawPtr() ) DM( w->IsValid() )
    DLL_IGES_CURVE* c = dynamic_cast<DLL_IGES_CURVE*>( w );
    if( c )
    {
        DM( c->IsClosed() ) DM( c->GetNCurves() ) DM( c->GetCurve( 0 ) ) DM( c->GetStartPoint( pt ) ) DM( c->GetEndPoint( pt ) ) DM( c->GetNSegments() )
    }
    switch( w->GetEntityType() )
    {
        case 100: DM( WAS( 100 )->GetCircleCenter( pt ) ) DM( WAS( 100 )->GetCircleStart( v, v2, v3 ) ) DM( WAS( 100 )->SetCircleEnd( 1, 2 ) )
                  DM( WAS( 100 )->SetCircleCenter( pt ) ) DM( WAS( 100 )->SetCircleStart( pt ) ) DM( WAS( 100 )->GetCircleEnd( pt ) ) break;
        case 102: DM( WAS( 102 )->AddSegment( (IGES_CURVE*) oe ) ) break;
        case 104: DM( WAS( 104 )->GetConicStart( pt ) ) DM( WAS( 104 )->SetConicEnd( 1, 2 ) ) DM( WAS( 104 )->SetConicParams( 1, 2, 3, 4, 5, 6 ) )
                  DM( WAS( 104 )->SetConicStart( 1, 2, 3 ) ) DM( WAS( 104 )->GetConicEnd( pt ) ) break;
        case 110: DM( WAS( 110 )->GetLineStart( pt ) ) DM( WAS( 110 )->GetLineEnd( v, v2, v3 ) ) DM( WAS( 110 )->SetLineStart( pt ) )
                  DM( WAS( 110 )->SetLineEnd( 1, 2, 3 ) ) break;
        case 120: DM( WAS( 120 )->GetAxis( &cu ) ) DM( WAS( 120 )->SetAxis( other ) ) DM( WAS( 120 )->GetGeneratrix( &cu ) )
                  DM( WAS( 120 )->SetGeneratrix( (IGES_CURVE*) oe ) ) DM( WAS( 120 )->GetAngles( v, v2 ) ) DM( WAS( 120 )->SetAngles( 0, 1 ) ) break;
        case 122: DM( WAS( 122 )->GetGeneratrixEnd( pt ) ) DM( WAS( 122 )->SetGeneratrixEnd( 1, 2, 3 ) ) DM( WAS( 122 )->GetDirectrix( cu ) )
                  DM( WAS( 122 )->SetDirectrix( (IGES_CURVE*) oe ) ) break;
        case 124: { MCAD_TRANSFORM T; DM( WAS( 124 )->GetOverallTransform( T ) ) DM( WAS( 124 )->GetRootTransform( T ) ) DM( WAS( 124 )->SetRootTransform( T ) )
                  DM( WAS( 124 )->SetRootTransform( &T ) ) break; }
        case 126: { int a = 2, o = 2; double *k = NULL, *cf = NULL; bool b1, b2, b3;
                  const double kn[] = { 0, 0, 1, 1 }, cc[] = { 0, 0, 0, 1, 1, 1 };
                  DM( WAS( 126 )->GetNURBSData( a, o, &k, &cf, b1, b2, b3, v, v2 ) ) DM( WAS( 126 )->SetNURBSData( 2, 2, kn, cc, false, 0, 1 ) )
                  DM( WAS( 126 )->IsPlanar( b ) ) DM( WAS( 126 )->IsRational( b ) ) DM( WAS( 126 )->isPeriodic( b ) ) DM( WAS( 126 )->GetNormal( pt ) ) break; }
        case 128: { DM( WAS( 128 )->IsRational( b ) ) DM( WAS( 128 )->isClosed1( b ) ) DM( WAS( 128 )->isClosed2( b ) ) DM( WAS( 128 )->isPeriodic1( b ) )
                  DM( WAS( 128 )->isPeriodic2( b ) ) break; }
        case 142: { BOUND_CURVE_PREF bp; CURVE_CREATION cr; DM( WAS( 142 )->GetSurface( &e ) ) DM( WAS( 142 )->SetSurface( oe ) )
                  DM( WAS( 142 )->GetParameterSpaceBound( &e ) ) DM( WAS( 142 )->SetParameterSpaceBound( other ) ) DM( WAS( 142 )->GetModelSpaceBound( &e ) )
                  DM( WAS( 142 )->SetModelSpaceBound( other ) ) DM( WAS( 142 )->GetCurvePreference( bp ) ) DM( WAS( 142 )->SetCurvePreference( BOUND_PREF_ANY ) )
                  DM( WAS( 142 )->GetCurveCreationFlag( cr ) ) DM( WAS( 142 )->SetCurveCreationFlag( CURVE_CREATE_PROJECTION ) ) break; }
        case 144: { IGES_ENTITY_142* q = NULL; IGES_ENTITY_142** ql = NULL; DLL_IGES_ENTITY_142 x( (IGES*) NULL, true );
                  DM( WAS( 144 )->GetSurface( e ) ) DM( WAS( 144 )->SetSurface( other ) ) DM( WAS( 144 )->GetBoundCurve( q ) ) DM( WAS( 144 )->SetBoundCurve( x ) )
                  DM( WAS( 144 )->GetNCutouts( i ) ) DM( WAS( 144 )->GetCutouts( n, ql ) ) DM( WAS( 144 )->AddCutout( x ) ) DM( WAS( 144 )->DelCutout( x ) )
                  x.DelEntity(); break; }
        case 308: { DLL_IGES_ENTITY* q = &other; DM( WAS( 308 )->GetNumDE( n ) ) DM( WAS( 308 )->GetDEList( n, el ) ) DM( WAS( 308 )->AddDE( oe ) )
                  DM( WAS( 308 )->AddDE( q ) ) DM( WAS( 308 )->DelDE( oe ) ) DM( WAS( 308 )->DelDE( q ) ) DM( WAS( 308 )->GetNestDepth( i ) )
                  DM( WAS( 308 )->GetName( cp ) ) DM( WAS( 308 )->SetName( "n" ) ) break; }
        case 314: DM( WAS( 314 )->GetColor( v, v2, v3 ) ) DM( WAS( 314 )->SetColor( 1, 2, 3 ) ) DM( WAS( 314 )->GetName( cp ) ) DM( WAS( 314 )->SetName( "n" ) ) break;
        case 406: DM( WAS( 406 )->GetProperty_Name() ) DM( WAS( 406 )->SetProperty_Name( "n" ) ) break;
        case 408: { IGES_ENTITY_308* q = NULL; DM( WAS( 408 )->GetSubfigure( q ) ) DM( WAS( 408 )->SetSubfigure( NULL ) ) DM( WAS( 408 )->GetDE( q ) )
                  DM( WAS( 408 )->SetDE( NULL ) ) DM( WAS( 408 )->GetSubfigParams( v, v2, v3, v4 ) ) DM( WAS( 408 )->SetSubfigParams( 1, 2, 3 ) ) break; }
    }
    other.DelEntity();
    col.DelEntity();
    return bad;
}

static void wrapNotify( const string& name )    // a model has been deleted behind the back of its DLL_IGES
{
    map<string, DLL_IGES*>::iterator i = D.find( name );
    if( i == D.end() ) return;
    if( DX.count( name ) ) delete DX[name];
    DX[name] = i->second;
    D.erase( i );
}

static void wrapCleanup( bool before )
{
    if( before )
    {
        // models first: the wrappers may outlive them
        for( map<string, DLL_IGES*>::iterator i = D.begin(); i != D.end(); ++i ) { M.erase( i->first ); delete i->second; }
        D.clear();
        return;
    }
    for( map<string, DLL_IGES_ENTITY*>::iterator i = WR.begin(); i != WR.end(); ++i ) delete i->second;
    WR.clear();
    for( map<string, DLL_IGES*>::iterator i = DX.begin(); i != DX.end(); ++i ) delete i->second;
    DX.clear();
    wmode = 0;
    wused = wfall = 0;
    wcnt = 0;
}

// the commands which work on wrappers that live on
static bool wrapper()
{
    const string c = A[0];
    if( c == "wmode" ) { wmode = iarg( 1 ); if( A.size() > 2 ) wcnt = iarg( 2 ); R( "1" ); return true; }
    if( c == "wused" ) { char b[64]; snprintf( b, 64, "%ld %ld", wused, wfall ); R( b ); return true; }
    if( c == "wdead" )     // objects whose model was deleted
    {
        if( DX.empty() ) { R( "none" ); return true; }
        map<string, DLL_IGES*>::iterator i = DX.begin();
        deadModel( i->second );
        delete i->second;
        DX.erase( i );
        return true;
    }
    if( c == "wnull" )     // NULL where a string is expected
    {
        if( !D.count( arg( 1 ) ) ) { R( "nodll" ); return true; }
        const char* np = NULL;
        size_t n = D[arg( 1 )]->GetNHeaderLines();
        D[arg( 1 )]->AddToHeader( np );
        bool b = false;
        Tmp t( ent( arg( 2 ) ) );
        int k0 = 0, k1 = 0;
        if( t.w ) { t.w->GetNComments( k0 ); b = t.w->AddComment( np ); t.w->GetNComments( k1 ); }
        R( b || k0 != k1 || n != D[arg( 1 )]->GetNHeaderLines() ? "WRAP accepted NULL" : "1" );
        return true;
    }
    if( c == "wnew" )      // wnew W type model|- create [dll]
    {
        IGES* p = mod( arg( 3 ) );
        DLL_IGES_ENTITY* w = arg( 5 ) == "dll" && D.count( arg( 3 ) ) ? mkWrap( iarg( 2 ), *D[arg( 3 )], iarg( 4 ) != 0 ) : mkWrap( iarg( 2 ), p, iarg( 4 ) != 0 );
        if( !w ) { R( "notype" ); return true; }
        if( WR.count( arg( 1 ) ) ) delete WR[arg( 1 )];
        WR[arg( 1 )] = w;
        if( !iarg( 4 ) ) { R( "1" ); return true; }
        IGES_ENTITY* e = w->GetRawPtr();
        if( e ) setEnt( arg( 6 ), e );
        RB( e != NULL );
        return true;
    }
    if( c == "wapi" )      // wapi W type model name: DLL_IGES::NewAPIEntity
    {
        if( !D.count( arg( 3 ) ) ) { R( "nodll" ); return true; }
        DLL_IGES_ENTITY* w = WR.count( arg( 1 ) ) ? WR[arg( 1 )] : NULL;
        bool ok = D[arg( 3 )]->NewAPIEntity( (IGES_ENTITY_TYPE) iarg( 2 ), w );
        if( w ) WR[arg( 1 )] = w; else WR.erase( arg( 1 ) );
        IGES_ENTITY* e = ok && w ? w->GetRawPtr() : NULL;
        if( e ) setEnt( arg( 4 ), e );
        R( string( ok ? "1" : "0" ) + ( e ? " e" : " null" ) + ( ok && w && (int) w->GetEntityType() == iarg( 2 ) ? " t" : " -" ) );
        return true;
    }
    if( c == "wstat" )     // every wrapper: valid, name of its entity, and what an invalid one does
    {
        string r;
        for( map<string, DLL_IGES_ENTITY*>::iterator i = WR.begin(); i != WR.end(); ++i )
        {
            bool v = i->second->IsValid();
            IGES_ENTITY* p = i->second->GetRawPtr();
            if( !r.empty() ) r += " ";
            r += i->first + "=";
            if( v != ( p != NULL ) ) r += "INCONSISTENT";
            else if( !v )
            {
                string b = deadWrapper( i->second );
                r += b.empty() ? "-" : "WORKS:" + enc( b );
            }
            else
            {
                map<IGES_ENTITY*, string>::iterator k = RE.find( p );
                r += k == RE.end() ? string( "UNKNOWN" ) : k->second;
            }
        }
        R( r );
        return true;
    }
    if( c.size() < 2 || c[0] != 'w' ) return false;
    static const set<string> WC = { "wdel", "wattach", "wdetach", "wdelent", "wnewent", "wparent" };
    if( !WC.count( c ) ) return false;
    map<string, DLL_IGES_ENTITY*>::iterator i = WR.find( arg( 1 ) );
    if( i == WR.end() ) { R( "nowrapper" ); return true; }
    DLL_IGES_ENTITY* w = i->second;
    if( c == "wdel" ) { delete w; WR.erase( i ); R( "1" ); }
    else if( c == "wattach" ) RB( w->Attach( ent( arg( 2 ) ) ) );
    else if( c == "wdetach" ) { IGES_ENTITY* e = w->Detach(); R( e ? nameOf( e ) : "null" ); }
    else if( c == "wdelent" )
    {
        map<IGES_ENTITY*, string>::iterator k = RE.find( w->GetRawPtr() );
        if( w->GetRawPtr() && k != RE.end() ) forget( string( k->second ) );
        w->DelEntity();
        R( "1" );
    }
    else if( c == "wnewent" )
    {
        bool ok = w->NewEntity();
        IGES_ENTITY* e = w->GetRawPtr();
        if( ok && e ) setEnt( arg( 2 ), e );
        R( string( ok ? "1" : "0" ) + ( e ? " e" : " null" ) );
    }
    else if( c == "wparent" )
    {
        if( arg( 2 ) == "-" ) RB( w->SetAPIParentIGES( (IGES*) NULL ) );
        else if( D.count( arg( 2 ) ) && arg( 3 ) == "dll" ) RB( w->SetAPIParentIGES( *D[arg( 2 )] ) );
        else RB( w->SetAPIParentIGES( mod( arg( 2 ) ) ) );
    }
    return true;
}

// the commands of vh through wrappers; false: not possible, use the direct call
static bool viaWrapper()
{
    const string c = A[0];
    if( c == "new" )
    {
        DLL_IGES* d = new DLL_IGES;
        if( D.count( arg( 1 ) ) ) delete D[arg( 1 )];
        D[arg( 1 )] = d;
        M[arg( 1 )] = d->GetRawPtr();
        RB( M[arg( 1 )] != NULL );
        return true;
    }
    if( c == "mkent" )
    {
        if( mod( arg( 3 ) ) ) return false;
        DLL_IGES_ENTITY* w = NULL;
        bool a = alt();
        w = mkWrap( iarg( 1 ), (IGES*) NULL, a );
        if( !w ) return false;
        if( !a && !w->NewEntity() ) { R( "WRAP NewEntity failed" ); return true; }
        IGES_ENTITY* p = alt() ? w->GetRawPtr() : w->Detach();
        delete w;
        setEnt( arg( 2 ), p );
        RB( p != NULL );
        return true;
    }
    static const set<string> MC = { "del", "clear", "read", "write", "conv", "scale", "cull", "compact", "export", "nent", "addent",
        "delent", "unlinkent", "hdr", "hdrs", "gset", "gget", "unitname", "partname", "assyname" };
    if( MC.count( c ) )
    {
        map<string, DLL_IGES*>::iterator di = D.find( arg( 1 ) );
        if( di == D.end() ) return false;
        DLL_IGES* m = di->second;
        if( c == "del" )
        {
            delete m;
            D.erase( di );
            M.erase( arg( 1 ) );
            R( "1" );
        }
        else if( c == "clear" ) RB( m->Clear() );
        else if( c == "read" ) RB( m->Read( sarg( 2 ).c_str() ) );
        else if( c == "write" ) { bool ok; { Faults f; ok = m->Write( sarg( 2 ).c_str(), iarg( 3 ) != 0 ); } RB( ok ); }
        else if( c == "conv" ) RB( alt() ? m->ConvertUnits( (IGES_UNIT) iarg( 2 ) ) : m->SetUnitsFlag( (IGES_UNIT) iarg( 2 ) ) );
        else if( c == "scale" ) RB( m->ChangeModelScale( darg( 2 ) ) );
        else if( c == "cull" ) { m->Cull( iarg( 2 ) != 0 ); R( "1" ); }
        else if( c == "compact" ) { m->Compact(); R( "1" ); }
        else if( c == "export" )
        {
            IGES_ENTITY_308* p = NULL;
            bool ok = alt() && D.count( arg( 2 ) ) ? m->Export( D[arg( 2 )], &p ) : m->Export( mod( arg( 2 ) ), &p );
            if( ok && p ) setEnt( arg( 3 ), p );
            R( string( ok ? "1" : "0" ) + ( p ? " p" : " null" ) );
        }
        else if( c == "nent" )
        {
            IGES_ENTITY* p = NULL;
            bool ok = false;
            int t = iarg( 2 ), v = alt( 6 );
            DLL_IGES_ENTITY* w = NULL;
            if( v > 0 && ( w = mkWrap( t, (IGES*) NULL, false ) ) == NULL ) v = 0;  // not in the wrapper
            delete w;
            w = NULL;
            if( v == 0 ) ok = m->NewIGESEntity( (IGES_ENTITY_TYPE) t, &p );
            else if( v == 1 ) ok = m->NewAPIEntity( (IGES_ENTITY_TYPE) t, w );
            else if( v == 2 ) { w = mkWrap( t, m->GetRawPtr(), true ); ok = w->IsValid(); }
            else if( v == 3 ) { w = mkWrap( t, *m, true ); ok = w->IsValid(); }
            else if( v == 4 ) { w = mkWrap( t, *m, false ); ok = w->NewEntity(); }
            else { w = mkWrap( t, (IGES*) NULL, false ); ok = w->SetAPIParentIGES( *m ) && w->NewEntity(); }
            if( v ) { p = w ? w->GetRawPtr() : NULL; if( alt() && w ) w->Detach(); delete w; }
            if( p ) setEnt( arg( 3 ), p );
            RB( ok && p );
        }
        else if( c == "addent" || c == "delent" || c == "unlinkent" )
        {
            IGES_ENTITY* p = ent( arg( 2 ) );
            bool ok;
            {
                Tmp t( p );
                bool d = t.w && alt();
                ok = c[0] == 'a' ? ( d ? m->AddEntity( t.w ) : m->AddEntity( p ) ) : c[0] == 'd' ? ( d ? m->DelEntity( t.w ) : m->DelEntity( p ) )
                    : ( d ? m->UnlinkEntity( t.w ) : m->UnlinkEntity( p ) );
                if( t.w && c[0] == 'd' && ok && ( t.w->IsValid() || t.w->GetRawPtr() ) ) R( "WRAP valid after DelEntity" );
                if( t.w && !( c[0] == 'd' && ok ) && t.w->GetRawPtr() != p ) R( "WRAP lost its entity" );
            }
            if( c[0] == 'd' && ok ) forget( arg( 2 ) );
            RB( ok );
        }
        else if( c == "hdr" ) { string s = sarg( 2 ); const char* p = s.c_str(); RB( m->AddToHeader( p ) ); }
        else if( c == "hdrs" )
        {
            size_t n = m->GetNHeaderLines(), k = 99;
            char const** l = NULL;
            string r;
            if( n > 0 )
            {
                if( m->GetHeaders( k, l ) && l ) { for( size_t i = 0; i < n; ++i ) r += " " + enc( l[i] ); }
                if( k != n ) r += " WRAP number of headers";
            }
            char b[32];
            snprintf( b, 32, "%zu", n );
            R( string( b ) + r );
        }
        else if( c == "unitname" ) { const char* p = NULL; bool ok = m->GetUnitsName( p ); R( ok && p ? enc( p ) : "null" ); }
        else if( c == "partname" || c == "assyname" )
        {
            char* p = c == "partname" ? m->GetNewPartName() : m->GetNewAssemblyName( NULL );
            R( p ? enc( p ) : "null" );
            delete [] p;
        }
        else if( c == "gset" )
        {
            string k = arg( 2 ), s = sarg( 3 );
            const char* p = s.empty() && alt() ? NULL : s.c_str();
            bool ok;
            if( k == "productIDSS" ) ok = m->SetProductID_SendingSystem( p );
            else if( k == "productIDRS" ) ok = m->SetProductID_ReceivingSystem( p );
            else if( k == "nativeSystemID" ) ok = m->SetNativeSystemID( p );
            else if( k == "author" ) ok = m->SetAuthor( p );
            else if( k == "organization" ) ok = m->SetOrganization( p );
            else if( k == "applicationNote" ) ok = m->SetApplicationNote( p );
            else if( k == "draftStandard" ) ok = m->SetDraftingStandard( (IGES_DRAFTING_STANDARD) iarg( 3 ) );
            else if( k == "maxLinewidthGrad" && iarg( 3 ) > 0 ) ok = m->SetMaxLineWidthGrad( iarg( 3 ) );
            else if( k == "maxLinewidth" && darg( 3 ) > 0 ) ok = m->SetMaxLineWidth( darg( 3 ) );
            else if( k == "minResolution" && darg( 3 ) >= 1e-9 ) ok = m->SetMinResolution( darg( 3 ) );
            else return false;
            R( ok ? "1" : "WRAP setter failed" );
        }
        else if( c == "gget" )
        {
            IGES_GLOBAL& g = m->GetRawPtr()->globalData;
            string r;
            ostringstream o;
            o.imbue( locale::classic() );
            const char* cp = NULL;
            int iv = -999;
            double dv = -999;
            IGES_UNIT un = UNIT_END;
            IGES_DRAFTING_STANDARD ds = DRAFT_END;
            bool ok;
#define QS( f, fn ) { cp = NULL; ok = m->fn( cp ); r += string( #f "=" ) + cstr( ok, cp ) + " "; }
#define QI( f, fn ) { iv = -999; ok = m->fn( iv ); o.str( "" ); o << ( ok ? iv : -888 ); r += string( #f "=" ) + o.str() + " "; }
#define QD( f, fn ) { dv = -999; ok = m->fn( dv ); r += string( #f "=" ) + fd( ok ? dv : -888 ) + " "; }
#define PS( f ) r += string( #f "=" ) + enc( g.f ) + " ";
#define PI( f ) { o.str( "" ); o << (int) g.f; r += string( #f "=" ) + o.str() + " "; }
#define PD( f ) r += string( #f "=" ) + fd( g.f ) + " ";
            QS( productIDSS, GetProductID_SendingSystem ) PS( fileName ) QS( nativeSystemID, GetNativeSystemID ) QS( preprocessorVersion, GetPreprocessorVersion )
            PI( nIntegerBits ) PI( floatMaxExp ) PI( floatMaxSig ) PI( doubleMaxExp ) PI( doubleMaxSig )
            if( !g.productIDRS.empty() ) QS( productIDRS, GetProductID_ReceivingSystem )
            else
            {
                // an empty receiving system is that of the sender
                PS( productIDRS )
                cp = NULL;
                if( !m->GetProductID_ReceivingSystem( cp ) || !cp || g.productIDSS != cp ) r += "WRAP receiving system ";
            }
            PD( modelScale )
            ok = m->GetUnitsFlag( un ); o.str( "" ); o << ( ok ? (int) un : -888 ); r += "unitsFlag=" + o.str() + " ";
            PS( unitsName )
            QI( maxLinewidthGrad, GetMaxLineWidthGrad ) QD( maxLinewidth, GetMaxLineWidth ) QS( creationDate, GetCreationDate )
            QD( minResolution, GetMinResolution ) PD( maxCoordinateValue ) QS( author, GetAuthor ) QS( organization, GetOrganization )
            QI( igesVersion, GetIGESVersionFlag )
            ok = m->GetDraftingStandard( ds ); o.str( "" ); o << ( ok ? (int) ds : -888 ); r += "draftStandard=" + o.str() + " ";
            QS( modificationDate, GetModificationDate ) QS( applicationNote, GetApplicationNote )
            PI( pdelim ) PI( rdelim )
#undef PS
#undef PI
#undef PD
            R( r );
        }
        else return false;
        return true;
    }
    static const set<string> EC = { "free", "destroy", "type", "form", "set", "get", "sets", "gets", "link", "links", "nurbs", "gnurbs", "nurbss", "gnurbss",
        "curve", "subcurves", "planar", "gtransform", "setattr", "attrs", "parent", "setparent", "comment", "delcomment", "clrcomment", "comments", "depth" };
    if( !EC.count( c ) ) return false;
    IGES_ENTITY* e = ent( arg( 1 ) );
    if( !e ) return false;
    const int t = e->GetEntityType();
    Tmp tmp( e );
    DLL_IGES_ENTITY* w = tmp.w;
    if( !w ) return false;
    if( c == "free" || c == "destroy" )
    {
        IGES* ip = NULL;
        if( !w->GetParentIGES( ip ) ) { R( "WRAP no parent" ); return true; }
        if( c == "free" && ip ) { R( "0" ); return true; }
        forget( arg( 1 ) );
        w->DelEntity();
        R( w->IsValid() || w->GetRawPtr() ? "WRAP valid after DelEntity" : "1" );
    }
    else if( c == "type" )
    {
        int a = -1, b = -1;
        w->GetEntityType( a );
        w->GetEntityForm( b );
        char s[48];
        snprintf( s, 48, "%d %d", a, b );
        R( a == (int) w->GetEntityType() ? s : "WRAP types" );
    }
    else if( c == "form" ) RB( w->SetEntityForm( iarg( 2 ) ) );
    else if( c == "set" || c == "get" )
    {
        const string f = arg( 2 );
        double v[6] = { 0, 0, 0, 0, 0, 0 };
        int n = 0, k = 0;
        if( t == 124 )
        {
            MCAD_TRANSFORM T;
            if( !WAS( 124 )->GetRootTransform( T ) ) { R( "WRAP no transform" ); return true; }
            double* p = f == "TX" ? &T.T.x : f == "TY" ? &T.T.y : f == "TZ" ? &T.T.z : f.size() == 3 && f[0] == 'R' ? &T.R.v[f[1] - '0'][f[2] - '0'] : NULL;
            if( !p ) return false;
            if( c == "get" ) { R( fd( *p ) ); return true; }
            *p = darg( 3 );
            RB( alt() ? WAS( 124 )->SetRootTransform( T ) : WAS( 124 )->SetRootTransform( &T ) );
            return true;
        }
        if( t == 142 && ( f == "CRTN" || f == "PREF" ) )
        {
            CURVE_CREATION cr = CURVE_CREATE_UNSPECIFIED;
            BOUND_CURVE_PREF bp = BOUND_PREF_UNSPECIFIED;
            int x = iarg( 3 );
            if( c == "set" && ( x < 0 || x > 3 ) ) return false;
            bool ok;
            if( c == "set" ) ok = f == "CRTN" ? WAS( 142 )->SetCurveCreationFlag( (CURVE_CREATION) x ) : WAS( 142 )->SetCurvePreference( (BOUND_CURVE_PREF) x );
            else
            {
                if( f == "CRTN" ? ( AS( 142 )->CRTN < 0 || AS( 142 )->CRTN > 3 ) : ( AS( 142 )->PREF < 0 || AS( 142 )->PREF > 3 ) ) return false;
                ok = f == "CRTN" ? WAS( 142 )->GetCurveCreationFlag( cr ) : WAS( 142 )->GetCurvePreference( bp );
            }
            if( c == "set" ) RB( ok );
            else { char b[32]; snprintf( b, 32, "%d", ok ? ( f == "CRTN" ? (int) cr : (int) bp ) : -999 ); R( b ); }
            return true;
        }
        if( !wnums( w, t, f, v, n, k, false ) ) return false;
        if( c == "get" ) { R( fd( v[k] ) ); return true; }
        v[k] = darg( 3 );
        if( t == 314 && !( v[0] >= 0 && v[0] <= 100 && v[1] >= 0 && v[1] <= 100 && v[2] >= 0 && v[2] <= 100 ) ) return false;
        RB( wnums( w, t, f, v, n, k, true ) );
    }
    else if( c == "sets" )
    {
        string s = sarg( 2 );
        const char* p = s.empty() && alt() ? NULL : s.c_str();
        if( t == 308 ) RB( WAS( 308 )->SetName( p ) );
        else if( t == 314 ) RB( WAS( 314 )->SetName( p ) );
        else if( t == 406 ) RB( WAS( 406 )->SetProperty_Name( s.c_str() ) );
        else return false;
    }
    else if( c == "gets" )
    {
        const char* p = NULL;
        if( t == 308 ) { bool ok = WAS( 308 )->GetName( p ); R( cstr( ok, p ) ); }
        else if( t == 314 ) { bool ok = WAS( 314 )->GetName( p ); R( cstr( ok, p ) ); }
        else if( t == 406 ) { p = WAS( 406 )->GetProperty_Name(); R( p ? enc( p ) : "null" ); }
        else return false;
    }
    else if( c == "link" )
    {
        IGES_ENTITY* ch = arg( 3 ) == "null" ? NULL : ent( arg( 3 ) );
        if( !ch && arg( 3 ) != "null" ) return false;
        badType = false;
        int r = wLink( w, t, arg( 2 ), ch );
        R( badType ? "badtype" : r < 0 ? "noslot" : r ? "1" : "0" );
    }
    else if( c == "links" )
    {
        vector<IGES_ENTITY*> l;
        if( !wGetLinks( w, t, arg( 2 ), l ) ) return false;
        string r;
        for( size_t i = 0; i < l.size(); ++i ) r += ( i ? " " : "" ) + nameOf( l[i] );
        R( r );
    }
    else if( c == "nurbs" )
    {
        if( t != 126 ) return false;
        int n = iarg( 2 ), o = iarg( 3 );
        bool r = iarg( 4 ) != 0;
        vector<double> k, cf;
        size_t i = 7;
        for( int j = 0; j < n + o; ++j ) k.push_back( darg( i++ ) );
        for( int j = 0; j < n * ( r ? 4 : 3 ); ++j ) cf.push_back( darg( i++ ) );
        RB( WAS( 126 )->SetNURBSData( n, o, k.data(), cf.data(), r, darg( 5 ), darg( 6 ) ) );
    }
    else if( c == "gnurbs" )
    {
        if( t != 126 ) return false;
        int n = 0, o = 0;
        double *k = NULL, *cf = NULL;
        bool r = false, cl = false, pe = false, r2 = false, pe2 = false;
        double v0 = 0, v1 = 0;
        if( !WAS( 126 )->GetNURBSData( n, o, &k, &cf, r, cl, pe, v0, v1 ) ) { R( "0" ); return true; }
        if( !WAS( 126 )->IsRational( r2 ) || r2 != r || !WAS( 126 )->isPeriodic( pe2 ) || pe2 != pe ) R( "WRAP flags of the curve" );
        ostringstream os;
        os << n << " " << o << " " << r << " " << cl << " " << pe << " " << fd( v0 ) << " " << fd( v1 );
        for( int i = 0; i < n + o; ++i ) os << " " << fd( k[i] );
        for( int i = 0; i < n * ( r ? 4 : 3 ); ++i ) os << " " << fd( cf[i] );
        R( "1 " + os.str() );
    }
    else if( c == "nurbss" )
    {
        if( t != 128 ) return false;
        int n1 = iarg( 2 ), n2 = iarg( 3 ), o1 = iarg( 4 ), o2 = iarg( 5 );
        bool r = iarg( 6 ) != 0;
        vector<double> k1, k2, cf;
        size_t i = 13;
        for( int j = 0; j < n1 + o1; ++j ) k1.push_back( darg( i++ ) );
        for( int j = 0; j < n2 + o2; ++j ) k2.push_back( darg( i++ ) );
        for( int j = 0; j < n1 * n2 * ( r ? 4 : 3 ); ++j ) cf.push_back( darg( i++ ) );
        RB( WAS( 128 )->SetNURBSData( n1, n2, o1, o2, k1.data(), k2.data(), cf.data(), r, iarg( 7 ) != 0, iarg( 8 ) != 0, darg( 9 ), darg( 10 ),
                                      darg( 11 ), darg( 12 ) ) );
    }
    else if( c == "gnurbss" )
    {
        if( t != 128 ) return false;
        int n1 = 0, n2 = 0, o1 = 0, o2 = 0;
        double *k1 = NULL, *k2 = NULL, *cf = NULL;
        bool r = false, c1 = false, c2 = false, p1 = false, p2 = false, x[5];
        double u0 = 0, u1 = 0, v0 = 0, v1 = 0;
        if( !WAS( 128 )->GetNURBSData( n1, n2, o1, o2, &k1, &k2, &cf, r, c1, c2, p1, p2, u0, u1, v0, v1 ) ) { R( "0" ); return true; }
        if( !WAS( 128 )->IsRational( x[0] ) || !WAS( 128 )->isClosed1( x[1] ) || !WAS( 128 )->isClosed2( x[2] ) || !WAS( 128 )->isPeriodic1( x[3] )
            || !WAS( 128 )->isPeriodic2( x[4] ) || x[0] != r || x[1] != c1 || x[2] != c2 || x[3] != p1 || x[4] != p2 ) R( "WRAP flags of the surface" );
        ostringstream os;
        os << n1 << " " << n2 << " " << o1 << " " << o2 << " " << r << " " << c1 << " " << c2 << " " << p1 << " " << p2 << " "
           << fd( u0 ) << " " << fd( u1 ) << " " << fd( v0 ) << " " << fd( v1 );
        for( int i = 0; i < n1 + o1; ++i ) os << " " << fd( k1[i] );
        for( int i = 0; i < n2 + o2; ++i ) os << " " << fd( k2[i] );
        for( int i = 0; i < n1 * n2 * ( r ? 4 : 3 ); ++i ) os << " " << fd( cf[i] );
        R( "1 " + os.str() );
    }
    else if( c == "curve" || c == "subcurves" )
    {
        DLL_IGES_CURVE* k = dynamic_cast<DLL_IGES_CURVE*>( w );
        if( !k ) return false;
        if( c == "subcurves" )
        {
            string r;
            for( int i = -1; i <= k->GetNCurves(); ++i ) r += nameOf( k->GetCurve( i ) ) + " ";
            R( r );
            return true;
        }
        ostringstream os;
        for( int x = 0; x < 2; ++x )
        {
            MCAD_POINT p( 0, 0, 0 ), q( 0, 0, 0 );
            bool a = k->GetStartPoint( p, x != 0 );
            bool b = k->GetEndPoint( q, x != 0 );
            os << a << " " << fd( p.x ) << " " << fd( p.y ) << " " << fd( p.z ) << " " << b << " " << fd( q.x ) << " " << fd( q.y ) << " "
               << fd( q.z ) << " ";
        }
        os << k->IsClosed() << " " << k->GetNSegments() << " " << k->GetNCurves();
        R( os.str() );
    }
    else if( c == "planar" )
    {
        if( t != 126 ) return false;
        MCAD_POINT p( 0, 0, 0 );
        bool a = false, ok = WAS( 126 )->IsPlanar( a ), b = WAS( 126 )->GetNormal( p );
        ostringstream os;
        os << ( ok && a ) << " " << b << " " << fd( p.x ) << " " << fd( p.y ) << " " << fd( p.z );
        R( os.str() );
    }
    else if( c == "gtransform" )
    {
        if( t != 124 ) return false;
        MCAD_TRANSFORM T;
        if( !WAS( 124 )->GetOverallTransform( T ) ) { R( "WRAP no transform" ); return true; }
        string r;
        const double tt[3] = { T.T.x, T.T.y, T.T.z };
        for( int i = 0; i < 3; ++i )
        {
            for( int j = 0; j < 3; ++j ) r += fd( T.R.v[i][j] ) + " ";
            r += fd( tt[i] ) + " ";
        }
        R( r );
    }
    else if( c == "setattr" )
    {
        string k = arg( 2 );
        bool r = false;
        int v = iarg( 3 );
        string s = sarg( 3 );
        if( k == "color" ) r = w->SetColor( (IGES_COLOR) v );
        else if( k == "linefont" ) r = w->SetLineFontPattern( (IGES_LINEFONT_PATTERN) v );
        else if( k == "level" ) r = w->SetLevel( v );
        else if( k == "weight" ) r = w->SetLineWeightNum( v );
        else if( k == "label" ) r = w->SetLabel( s.empty() && alt() ? NULL : s.c_str() );
        else if( k == "subscript" ) r = w->SetEntitySubscript( v );
        else if( k == "visible" ) r = w->SetVisibility( v != 0 );
        else if( k == "depends" ) r = w->SetDependency( (IGES_STAT_DEPENDS) v );
        else if( k == "use" ) r = w->SetEntityUse( (IGES_STAT_USE) v );
        else if( k == "hier" ) r = w->SetHierarchy( (IGES_STAT_HIER) v );
        else return false;
        RB( r );
    }
    else if( c == "attrs" )
    {
        IGES_COLOR col = COLOR_END; bool b1 = w->GetColor( col );
        IGES_LINEFONT_PATTERN lf = LINEFONT_END; bool b2 = w->GetLineFontPattern( lf );
        int lv = -999; bool b3 = w->GetLevel( lv );
        int lw = -999; w->GetLineWeightNum( lw );
        int ss = -999; w->GetEntitySubscript( ss );
        bool vi = false; w->GetVisibility( vi );
        IGES_STAT_DEPENDS de = STAT_DEP_END; w->GetDependency( de );
        IGES_STAT_USE us = STAT_USE_END; w->GetEntityUse( us );
        IGES_STAT_HIER hi = STAT_HIER_END; w->GetHierarchy( hi );
        const char* lp = NULL; bool b4 = w->GetLabel( lp );
        int no = -1; w->GetNOptionalEntities( no );
        int nc = -1; w->GetNComments( nc );
        ostringstream os;
        os << "color=" << ( b1 ? (int) col : -1 ) << " linefont=" << ( b2 ? (int) lf : -1 ) << " level=" << ( b3 ? lv : -1 ) << " weight=" << lw
           << " subscript=" << ss << " visible=" << vi << " depends=" << de << " use=" << us << " hier=" << hi << " label=" << cstr( b4, lp )
           << " nopt=" << no << " ncom=" << nc << " nrefs=" << e->getNRefs();
        R( os.str() );
    }
    else if( c == "parent" )
    {
        IGES* p = NULL;
        bool ok = w->GetParentIGES( p );
        string r = !ok ? "WRAP" : p ? "?" : "null";
        for( map<string, IGES*>::iterator i = M.begin(); i != M.end(); ++i ) if( ok && i->second == p ) r = i->first;
        R( r );
    }
    else if( c == "setparent" )
    {
        bool d = D.count( arg( 2 ) ) && alt();
        RB( d ? w->SetParentIGES( *D[arg( 2 )] ) : w->SetParentIGES( mod( arg( 2 ) ) ) );
    }
    else if( c == "comment" ) { string s = sarg( 2 ); const char* p = s.c_str(); RB( w->AddComment( p ) ); }
    else if( c == "delcomment" ) RB( w->DelComment( iarg( 2 ) ) );
    else if( c == "clrcomment" ) RB( w->ClearComments() );
    else if( c == "comments" )
    {
        size_t n = 0;
        char const** l = NULL;
        string r;
        bool ok = w->GetComments( n, l );
        if( ok ) for( size_t i = 0; i < n; ++i ) r += " " + enc( l[i] );
        int k = -1;
        if( !w->GetNComments( k ) || k != (int) n ) r += " WRAP number of comments";
        string q;
        for( int i = -1; i <= e->GetNComments(); ++i )
        {
            const char* p = e->GetComment( i );
            q += " " + ( p ? enc( p ) : string( "null" ) );
        }
        R( string( ok ? "1" : "0" ) + r + " |" + q );
    }
    else if( c == "depth" )
    {
        if( t != 308 ) return false;
        int d = -1;
        WAS( 308 )->GetNestDepth( d );
        char b[32];
        snprintf( b, 32, "%d", d == AS( 308 )->getDepthLevel() ? AS( 308 )->DEPTH : -7 );
        R( b );
    }
    else return false;
    return true;
}

static bool wrapCommand()
{
    if( wrapper() ) return true;
    if( !wmode )
    {
        // a model may be deleted directly although a DLL_IGES has made it
        if( A[0] == "del" && D.count( arg( 1 ) ) ) wrapNotify( arg( 1 ) );
        return false;
    }
    if( viaWrapper() ) { ++wused; return true; }
    ++wfall;
    return false;
}
