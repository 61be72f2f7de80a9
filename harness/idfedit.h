// Commands which build and edit boards through the API of the IDF library.
// Objects which no board or component owns are destroyed at the end of the case.
#ifndef IDFEDIT_H
#define IDFEDIT_H
#include <set>

struct Edit
{
    map< string, IDF3_BOARD* > b;
    map< string, IDF_OUTLINE* > o;
    map< string, IDF3_COMPONENT* > c;
    map< string, IDF_DRILL_DATA* > d;
    map< string, IDF3_COMP_OUTLINE_DATA* > t;
    map< string, IDF3_COMP_OUTLINE* > p;
    set< string > mine;         // names of the objects which the user owns

    void clear()
    {
        // components first: they refer to the parts of the boards
        for( map< string, IDF3_COMP_OUTLINE_DATA* >::iterator i = t.begin(); i != t.end(); ++i ) if( mine.count( i->first ) ) delete i->second;
        for( map< string, IDF3_COMPONENT* >::iterator i = c.begin(); i != c.end(); ++i ) if( mine.count( i->first ) ) delete i->second;
        for( map< string, IDF_DRILL_DATA* >::iterator i = d.begin(); i != d.end(); ++i ) if( mine.count( i->first ) ) delete i->second;
        for( map< string, IDF_OUTLINE* >::iterator i = o.begin(); i != o.end(); ++i ) if( mine.count( i->first ) ) delete i->second;
        for( map< string, IDF3_BOARD* >::iterator i = b.begin(); i != b.end(); ++i ) delete i->second;
        b.clear(); o.clear(); c.clear(); d.clear(); t.clear(); p.clear(); mine.clear();
    }
    template< class T > T* get( map< string, T* >& m, const string& n )
    {
        if( n == "-" ) return NULL;
        typename map< string, T* >::iterator i = m.find( n );
        if( i == m.end() ) throw std::runtime_error( "no object " + n );
        return i->second;
    }
    template< class T > string name( map< string, T* >& m, const T* x )
    {
        if( !x ) return "-";
        for( typename map< string, T* >::iterator i = m.begin(); i != m.end(); ++i ) if( i->second == x ) return i->first;
        return "?";
    }
};

static Edit ed;

// also without the separators used here
static string esc( const string& s )
{
    string e = enc( s ), r;
    for( size_t i = 0; i < e.size(); ++i ) { char h[4]; if( strchr( ",;|^=:#!", e[i] ) ) { snprintf( h, 4, "%%%02X", e[i] ); r += h; } else r += e[i]; }
    return r;
}

// x0,y0,x1,y1,angle or, with centre, start and angle as KiCad has them, K,x,y,sx,sy,angle
static IDF_SEGMENT* segment( const string& s )
{
    bool k = s[0] == 'K';
    double v[5] = { 0 };
    istringstream i( k ? s.substr( 2 ) : s );
    i.imbue( locale::classic() );
    char comma;
    for( int n = 0; n < 5; ++n ) { i >> v[n]; i >> comma; }
    IDF_POINT a, b;
    a.x = v[0]; a.y = v[1]; b.x = v[2]; b.y = v[3];
    if( !k && v[4] == 0.0 ) return new IDF_SEGMENT( a, b );
    return new IDF_SEGMENT( a, b, v[4], k );
}

static string ring( IDF_OUTLINE& l )
{
    ostringstream o;
    o.imbue( locale::classic() );
    for( list< IDF_SEGMENT* >::iterator k = l.begin(); k != l.end(); ++k )
    {
        o << ( k == l.begin() ? "" : ";" ) << fd( (*k)->startPoint.x ) << "," << fd( (*k)->startPoint.y ) << "," << fd( (*k)->endPoint.x ) << "," << fd( (*k)->endPoint.y )
            << "," << fd( (*k)->angle );
        if( (*k)->angle != 0 ) o << "," << fd( (*k)->center.x ) << "," << fd( (*k)->center.y ) << "," << fd( (*k)->radius );
    }
    return o.str();
}

static void outline( BOARD_OUTLINE* t, ostringstream& o )
{
    o << (int) t->GetOwner() << "," << fd( t->GetThickness() ) << "," << t->OutlinesSize() << "," << t->CommentsSize() << "," << t->IsSingle();
    size_t n = 0;
    for( list< string >::iterator i = t->GetComments()->begin(); i != t->GetComments()->end(); ++i, ++n )
        o << ",#" << esc( *i ) << ( t->GetComment( n ) == &*i ? "" : "!" );
    n = 0;
    for( list< IDF_OUTLINE* >::const_iterator i = t->GetOutlines()->begin(); i != t->GetOutlines()->end(); ++i, ++n )
        o << "|" << ed.name( ed.o, *i ) << ( t->GetOutline( n ) == *i ? "" : "!" ) << ":" << ring( **i );
}

static string drill( IDF_DRILL_DATA* d )
{
    return fd( d->GetDrillDia() ) + "," + fd( d->GetDrillXPos() ) + "," + fd( d->GetDrillYPos() ) + "," + fi( d->GetDrillPlating() ) + "," + esc( d->GetDrillRefDes() ) + ","
        + esc( d->GetDrillHoleType() ) + "," + fi( d->GetDrillOwner() );
}

static bool edit()
{
    const string c = arg( 0 );
    if( c == "eboard" ) { ed.b[arg( 1 )] = new IDF3_BOARD( iarg( 2 ) ? IDF3::CAD_MECH : IDF3::CAD_ELEC ); R( "ok" ); }
    else if( c == "eclear" ) { ed.get( ed.b, arg( 1 ) )->Clear(); R( "ok" ); }
    else if( c == "eread" ) RB( ed.get( ed.b, arg( 1 ) )->ReadFile( sarg( 2 ), true ) );
    else if( c == "ewrite" ) RB( ed.get( ed.b, arg( 1 ) )->WriteFile( sarg( 2 ), iarg( 3 ) != 0, true ) );
    else if( c == "eol" )           // eol NAME segments: an outline of the user's
    {
        IDF_OUTLINE* l = new IDF_OUTLINE;
        string r;
        for( size_t i = 2; i < A.size(); ++i )
        {
            IDF_SEGMENT* s = segment( arg( i ) );
            bool k = l->push( s );
            if( !k ) delete s;
            r += k ? "1" : "0";
        }
        ed.o[arg( 1 )] = l;
        ed.mine.insert( arg( 1 ) );
        R( r + " " + ( l->IsCCW() ? "ccw" : "cw" ) + ( l->IsCircle() ? " circle" : "" ) );
    }
    else if( c == "esort" )         // esort segments: the loops which the segments make up
    {
        list< IDF_SEGMENT* > l;
        for( size_t i = 1; i < A.size(); ++i ) l.push_back( segment( arg( i ) ) );
        string r;
        do
        {
            IDF_OUTLINE o;
            IDF3::GetOutline( l, o );
            r += " " + ring( o );
        } while( !l.empty() );
        R( r.substr( 1 ) );
    }
    else if( c == "eadd" || c == "edelp" || c == "edeli" || c == "eo" )
    {
        // a board's outline or, with /, through the object; or a part
        string n = arg( 1 );
        bool direct = n[0] == '/';
        if( direct ) n = n.substr( 1 );
        IDF3_BOARD* b = ed.b.count( n ) ? ed.b[n] : NULL;
        BOARD_OUTLINE* t = b ? b->GetBoardOutline() : NULL;
        if( !t && n[0] == '@' )     // @BOARD@ID: another outline
        {
            size_t k = n.find( '@', 1 );
            const map< string, OTHER_OUTLINE* >* m = ed.get( ed.b, n.substr( 1, k - 1 ) )->GetOtherOutlines();
            map< string, OTHER_OUTLINE* >::const_iterator i = m->find( dec( n.substr( k + 1 ) ) );
            if( i == m->end() ) throw std::runtime_error( "no outline " + n );
            t = i->second;
        }
        if( !t ) t = ed.get( ed.p, n );
        if( direct ) b = NULL;
        if( c == "eadd" )
        {
            IDF_OUTLINE* l = ed.get( ed.o, arg( 2 ) );
            bool r = b ? b->AddBoardOutline( l ) : t->AddOutline( l );
            if( r ) ed.mine.erase( arg( 2 ) );
            RB( r );
        }
        else if( c == "edelp" )
        {
            IDF_OUTLINE* l = ed.get( ed.o, arg( 2 ) );
            bool r = b ? b->DelBoardOutline( l ) : t->DelOutline( l );
            if( r ) ed.mine.insert( arg( 2 ) );
            RB( r );
        }
        else if( c == "edeli" ) RB( b ? b->DelBoardOutline( (size_t) iarg( 2 ) ) : t->DelOutline( (size_t) iarg( 2 ) ) );
        else
        {
            string f = arg( 2 );
            if( f == "owner" ) RB( t->SetOwner( (IDF3::KEY_OWNER) iarg( 3 ) ) );
            else if( f == "thick" ) RB( b ? b->SetBoardThickness( darg( 3 ) ) : t->SetThickness( darg( 3 ) ) );
            else if( f == "clear" ) RB( t->Clear() );
            else if( f == "clearo" ) { t->ClearOutlines(); R( "ok" ); }
            else if( f == "com" ) { t->AddComment( sarg( 3 ) ); R( "ok" ); }
            else if( f == "delcom" ) RB( t->DeleteComment( (size_t) iarg( 3 ) ) );
            else if( f == "clearcom" ) { t->ClearComments(); R( "ok" ); }
            else if( f == "at" ) R( ed.name( ed.o, t->GetOutline( (size_t) iarg( 3 ) ) ) );
            else if( f == "comat" ) { const string* s = t->GetComment( (size_t) iarg( 3 ) ); R( s ? esc( *s ) : string( "null" ) ); }
            else if( f == "side" ) RB( ( (OTHER_OUTLINE*) t )->SetSide( (IDF3::IDF_LAYER) iarg( 3 ) ) );
            else if( f == "get" )
            {
                ostringstream o;
                outline( t, o );
                R( o.str() );
            }
            else R( "?" );
        }
    }
    else if( c == "ebset" )
    {
        IDF3_BOARD* b = ed.get( ed.b, arg( 1 ) );
        string f = arg( 2 );
        if( f == "name" ) { b->SetBoardName( sarg( 3 ) ); R( "ok" ); }
        else if( f == "src" ) { b->SetIDFSource( sarg( 3 ) ); R( "ok" ); }
        else if( f == "ver" ) RB( b->SetBoardVersion( iarg( 3 ) ) );
        else if( f == "libver" ) RB( b->SetLibraryVersion( iarg( 3 ) ) );
        else if( f == "scale" ) RB( b->SetUserScale( darg( 3 ) ) );
        else if( f == "prec" ) RB( b->SetUserPrecision( iarg( 3 ) ) );
        else if( f == "off" ) { b->SetUserOffset( darg( 3 ), darg( 4 ) ); R( "ok" ); }
        else if( f == "newref" ) R( esc( b->GetNewRefDes() ) );
        else R( "?" );
    }
    else if( c == "edrill" )        // edrill BOARD|COMP dia x y plating type owner
    {
        IDF_DRILL_DATA* d = ed.b.count( arg( 1 ) )
            ? ed.b[arg( 1 )]->AddBoardDrill( darg( 2 ), darg( 3 ), darg( 4 ), (IDF3::KEY_PLATING) iarg( 5 ), sarg( 6 ), (IDF3::KEY_OWNER) iarg( 7 ) )
            : ed.get( ed.c, arg( 1 ) )->AddDrill( darg( 2 ), darg( 3 ), darg( 4 ), (IDF3::KEY_PLATING) iarg( 5 ), sarg( 6 ), (IDF3::KEY_OWNER) iarg( 7 ) );
        R( d ? drill( d ) : string( "null" ) );
    }
    else if( c == "emkdrill" )      // emkdrill NAME dia x y plating ref type owner
    {
        ed.d[arg( 1 )] = new IDF_DRILL_DATA( darg( 2 ), darg( 3 ), darg( 4 ), (IDF3::KEY_PLATING) iarg( 5 ), sarg( 6 ), sarg( 7 ), (IDF3::KEY_OWNER) iarg( 8 ) );
        ed.mine.insert( arg( 1 ) );
        R( "ok" );
    }
    else if( c == "eadddrill" )     // eadddrill BOARD|COMP NAME
    {
        IDF_DRILL_DATA* d = ed.get( ed.d, arg( 2 ) );
        IDF_DRILL_DATA* r = ed.b.count( arg( 1 ) ) ? ed.b[arg( 1 )]->AddDrill( d ) : ed.get( ed.c, arg( 1 ) )->AddDrill( d );
        if( r ) ed.mine.erase( arg( 2 ) );
        R( r == NULL ? "0" : r == d ? "1" : "other" );
    }
    else if( c == "edeldrill" )     // edeldrill BOARD|COMP dia x y
        RB( ed.b.count( arg( 1 ) ) ? ed.b[arg( 1 )]->DelBoardDrill( darg( 2 ), darg( 3 ), darg( 4 ) ) : ed.get( ed.c, arg( 1 ) )->DelDrill( darg( 2 ), darg( 3 ), darg( 4 ) ) );
    else if( c == "edeldrillp" ) RB( ed.get( ed.c, arg( 1 ) )->DelDrill( ed.get( ed.d, arg( 2 ) ) ) );
    else if( c == "eslot" ) RB( ed.get( ed.b, arg( 1 ) )->AddSlot( darg( 2 ), darg( 3 ), darg( 4 ), darg( 5 ), darg( 6 ) ) );
    else if( c == "ecomp" ) { ed.c[arg( 1 )] = new IDF3_COMPONENT( ed.get( ed.b, arg( 2 ) ) ); ed.mine.insert( arg( 1 ) ); R( "ok" ); }
    else if( c == "ecset" )
    {
        IDF3_COMPONENT* k = ed.get( ed.c, arg( 1 ) );
        string f = arg( 2 );
        if( f == "ref" ) RB( k->SetRefDes( sarg( 3 ) ) );
        else if( f == "place" ) RB( k->SetPlacement( (IDF3::IDF_PLACEMENT) iarg( 3 ) ) );
        else if( f == "pos" ) RB( k->SetPosition( darg( 3 ), darg( 4 ), darg( 5 ), (IDF3::IDF_LAYER) iarg( 6 ) ) );
        else R( "?" );
    }
    else if( c == "ecadd" )
    {
        bool r = ed.get( ed.b, arg( 1 ) )->AddComponent( ed.get( ed.c, arg( 2 ) ) );
        if( r ) ed.mine.erase( arg( 2 ) );
        RB( r );
    }
    else if( c == "ecdelp" ) RB( ed.get( ed.b, arg( 1 ) )->DelComponent( ed.get( ed.c, arg( 2 ) ) ) );
    else if( c == "ecdeli" ) RB( ed.get( ed.b, arg( 1 ) )->DelComponent( (size_t) iarg( 2 ) ) );
    else if( c == "ecfind" )        // ecfind NAME BOARD REF
    {
        IDF3_COMPONENT* k = ed.get( ed.b, arg( 2 ) )->FindComponent( sarg( 3 ) );
        string n = ed.name( ed.c, k );
        if( n == "?" ) { ed.c[arg( 1 )] = k; ed.mine.erase( arg( 1 ) ); }
        R( n );
    }
    else if( c == "edata" )         // edata NAME COMP PART [x y z a]: made, and added to the component
    {
        IDF3_COMPONENT* k = ed.get( ed.c, arg( 2 ) );
        IDF3_COMP_OUTLINE* p = ed.get( ed.p, arg( 3 ) );
        IDF3_COMP_OUTLINE_DATA* t = A.size() > 4 ? new IDF3_COMP_OUTLINE_DATA( k, p, darg( 4 ), darg( 5 ), darg( 6 ), darg( 7 ) ) : new IDF3_COMP_OUTLINE_DATA( k, p );
        ed.t[arg( 1 )] = t;
        ed.mine.insert( arg( 1 ) );
        R( "ok" );
    }
    else if( c == "eadddata" )
    {
        bool r = ed.get( ed.c, arg( 1 ) )->AddOutlineData( ed.get( ed.t, arg( 2 ) ) );
        if( r ) ed.mine.erase( arg( 2 ) );
        RB( r );
    }
    else if( c == "edeldatap" ) RB( ed.get( ed.c, arg( 1 ) )->DeleteOutlineData( ed.get( ed.t, arg( 2 ) ) ) );
    else if( c == "edeldatai" ) RB( ed.get( ed.c, arg( 1 ) )->DeleteOutlineData( (size_t) iarg( 2 ) ) );
    else if( c == "etset" )
    {
        IDF3_COMP_OUTLINE_DATA* t = ed.get( ed.t, arg( 1 ) );
        if( arg( 2 ) == "off" ) RB( t->SetOffsets( darg( 3 ), darg( 4 ), darg( 5 ), darg( 6 ) ) );
        else if( arg( 2 ) == "part" ) RB( t->SetOutline( ed.get( ed.p, arg( 3 ) ) ) );
        else R( "?" );
    }
    else if( c == "epart" || c == "eipart" )    // epart NAME BOARD FILE; eipart NAME BOARD GEOM PART; the name by which it is known already or NAME
    {
        IDF3_BOARD* b = ed.get( ed.b, arg( 2 ) );
        IDF3_COMP_OUTLINE* p = c == "epart" ? b->GetComponentOutline( sarg( 3 ) ) : b->GetInvalidOutline( sarg( 3 ), sarg( 4 ) );
        string n = ed.name( ed.p, p );
        if( n == "?" ) { ed.p[arg( 1 )] = p; n = arg( 1 ); }
        R( n + ( p && b->GetComponentOutlineByID( p->GetUID() ) != p ? " unknown" : "" ) );
    }
    else if( c == "epset" )
    {
        IDF3_COMP_OUTLINE* p = ed.get( ed.p, arg( 1 ) );
        if( arg( 2 ) == "class" ) RB( p->SetComponentClass( (IDF3::COMP_TYPE) iarg( 3 ) ) );
        else if( arg( 2 ) == "default" ) RB( p->CreateDefaultOutline( sarg( 3 ), sarg( 4 ) ) );
        else R( "?" );
    }
    else if( c == "edump" )
    {
        IDF3_BOARD* b = ed.get( ed.b, arg( 1 ) );
        ostringstream o;
        o.imbue( locale::classic() );
        double x = 0, y = 0, a = 0, z = 0;
        b->GetUserOffset( x, y );
        o << "name=" << esc( b->GetBoardName() ) << " th=" << fd( b->GetBoardThickness() ) << " ver=" << b->GetBoardVersion() << " libver=" << b->GetLibraryVersion() << " scale="
            << fd( b->GetUserScale() ) << " prec=" << b->GetUserPrecision() << " off=" << fd( x ) << "," << fd( y ) << " nout=" << b->GetBoardOutlinesSize() << " src=" << esc( b->GetIDFSource() );
        o << " out=";
        outline( b->GetBoardOutline(), o );
        o << " drills=";
        for( list< IDF_DRILL_DATA* >::iterator i = b->GetBoardDrills().begin(); i != b->GetBoardDrills().end(); ++i ) o << "|" << drill( *i );
        map< string, IDF3_COMPONENT* >& m = *b->GetComponents();
        o << " ncomp=" << b->GetComponentsSize() << " comps=";
        for( map< string, IDF3_COMPONENT* >::iterator i = m.begin(); i != m.end(); ++i )
        {
            IDF3::IDF_LAYER ly = IDF3::LYR_INVALID;
            bool ok = i->second->GetPosition( x, y, a, ly );
            o << "|" << esc( i->first ) << "," << esc( i->second->GetRefDes() ) << "," << (int) i->second->GetPlacement() << "," << ok << "," << fd( x ) << "," << fd( y ) << "," << fd( a ) << "," << (int) ly;
            for( list< IDF_DRILL_DATA* >::const_iterator k = i->second->GetDrills()->begin(); k != i->second->GetDrills()->end(); ++k ) o << ";D" << drill( *k );
            o << ";" << i->second->GetOutlinesSize();
            for( list< IDF3_COMP_OUTLINE_DATA* >::const_iterator k = i->second->GetOutlinesData()->begin(); k != i->second->GetOutlinesData()->end(); ++k )
            {
                (*k)->GetOffsets( x, y, z, a );
                IDF3_COMP_OUTLINE* p = (*k)->GetOutline();
                o << ";P" << ( p ? esc( p->GetUID() ) : string( "-" ) ) << "," << fd( x ) << "," << fd( y ) << "," << fd( z ) << "," << fd( a );
            }
        }
        const map< string, IDF3_COMP_OUTLINE* >& q = b->GetComponentOutlines();
        o << " parts=";
        for( map< string, IDF3_COMP_OUTLINE* >::const_iterator i = q.begin(); i != q.end(); ++i )
        {
            o << "^" << esc( i->first ) << "," << esc( i->second->GetGeomName() ) << "," << esc( i->second->GetPartName() ) << "," << (int) i->second->GetComponentClass() << ",";
            outline( i->second, o );
        }
        R( o.str() );
    }
    else return false;
    return true;
}
#endif
