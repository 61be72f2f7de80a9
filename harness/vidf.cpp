// Drives the IDF reader and the converter program (its main() runs inside this process).
#include "vcommon.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <cerrno>
#define main idf2igs_main
#include <idf2igs.cpp>
#undef main

using namespace std;

#include "idfedit.h"

static void cleanup() { ed.clear(); }

static string quoted( const string& s ) { return enc( s ); }

// everything the reader found, through the getters
static void walk( IDF3_BOARD& b, ostringstream& o )
{
    o.imbue( locale::classic() );
    o << "n=" << quoted( b.GetBoardName() ) << " u=" << (int) b.GetUnit() << " th=" << fd( b.GetBoardThickness() )
        << " src=" << quoted( b.GetBoardSource() ) << " date=" << quoted( b.GetBoardDate() ) << " v=" << b.GetBoardVersion();
    const list< IDF_OUTLINE* >* l = b.GetBoardOutlines();
    o << " loops=" << ( l ? l->size() : 0 );
    if( l )
    {
        for( list< IDF_OUTLINE* >::const_iterator i = l->begin(); i != l->end(); ++i )
        {
            o << ":" << (*i)->size();
            if( !(*i)->empty() ) (*i)->IsCircle();
            (*i)->IsCCW();
            for( list< IDF_SEGMENT* >::iterator k = (*i)->begin(); k != (*i)->end(); ++k )
            {
                (*k)->GetMinX();
                (*k)->IsCircle();
            }
        }
    }
    o << " drills=" << b.GetBoardDrills().size();
    for( list< IDF_DRILL_DATA* >::const_iterator i = b.GetBoardDrills().begin(); i != b.GetBoardDrills().end(); ++i )
        o << ":" << quoted( (*i)->GetDrillRefDes() ) << "," << quoted( (*i)->GetDrillHoleType() ) << "," << fd( (*i)->GetDrillDia() );
    map< string, IDF3_COMPONENT* >* c = b.GetComponents();
    o << " comps=" << c->size();
    for( map< string, IDF3_COMPONENT* >::iterator i = c->begin(); i != c->end(); ++i )
    {
        double x = 0, y = 0, a = 0;
        IDF3::IDF_LAYER ly = IDF3::LYR_INVALID;
        bool ok = i->second->GetPosition( x, y, a, ly );
        o << ":" << quoted( i->first ) << "," << quoted( i->second->GetRefDes() ) << "," << ok << "," << i->second->GetPlacement()
            << "," << i->second->GetDrills()->size() << "," << i->second->GetOutlinesSize();
        const list< IDF3_COMP_OUTLINE_DATA* >* d = i->second->GetOutlinesData();
        for( list< IDF3_COMP_OUTLINE_DATA* >::const_iterator k = d->begin(); k != d->end(); ++k )
        {
            double z;
            (*k)->GetOffsets( x, y, z, a );
            IDF3_COMP_OUTLINE* p = (IDF3_COMP_OUTLINE*) (*k)->GetOutline();
            o << "/" << ( p ? quoted( p->GetUID() ) : string( "-" ) );
        }
    }
    const map< string, IDF3_COMP_OUTLINE* >& co = b.GetComponentOutlines();
    o << " parts=" << co.size();
    for( map< string, IDF3_COMP_OUTLINE* >::const_iterator i = co.begin(); i != co.end(); ++i )
        o << ":" << quoted( i->first ) << "," << quoted( i->second->GetUID() ) << "," << i->second->OutlinesSize() << "," << fd( i->second->GetThickness() );
    const map< string, OTHER_OUTLINE* >* oo = b.GetOtherOutlines();
    o << " other=" << oo->size();
    for( map< string, OTHER_OUTLINE* >::const_iterator i = oo->begin(); i != oo->end(); ++i )
        o << ":" << quoted( i->second->GetOutlineIdentifier() ) << "," << (int) i->second->GetSide() << "," << i->second->OutlinesSize();
}

static void command()
{
    const string c = arg( 0 );
    if( c == "load" )           // load FILE CAD NOSUBST [OUT UNIT]: read, walk, optionally write and read back; then reuse the object
    {
        IDF3_BOARD* b = new IDF3_BOARD( iarg( 2 ) ? IDF3::CAD_MECH : IDF3::CAD_ELEC );
        string out = "0";
        try
        {
            if( b->ReadFile( sarg( 1 ), iarg( 3 ) != 0 ) )
            {
                ostringstream o;
                walk( *b, o );
                out = "1 " + o.str();
                if( A.size() > 4 )
                {
                    Faults f;
                    out += b->WriteFile( sarg( 4 ), iarg( 5 ) != 0, true ) ? " written" : " unwritten";
                }
                if( A.size() > 6 )      // and again
                {
                    walk( *b, o );
                    out += b->WriteFile( sarg( 6 ), iarg( 5 ) != 0, true ) ? " written" : " unwritten";
                }
                b->Clear();
            }
            else if( b->GetError().empty() ) out = "0 nomessage";
        }
        catch( ... )
        {
            delete b;
            throw;
        }
        delete b;
        R( out );
    }
    else if( c == "rewrite" )   // rewrite FILE CAD OUT MM: read and written again
    {
        IDF3_BOARD b( iarg( 2 ) ? IDF3::CAD_MECH : IDF3::CAD_ELEC );
        bool r = b.ReadFile( sarg( 1 ), true );
        bool w = r && b.WriteFile( sarg( 3 ), iarg( 4 ) != 0, true );
        R( fi( r ) + " " + fi( w ) );
    }
    else if( c == "again" )     // again FILE1 FILE CAD OUT MM: the same with an object which read another file before; a refused file leaves it empty
    {
        IDF3_BOARD b( iarg( 3 ) ? IDF3::CAD_MECH : IDF3::CAD_ELEC );
        bool p = b.ReadFile( sarg( 1 ), true );
        if( p ) b.Clear();
        bool r = b.ReadFile( sarg( 2 ), true );
        bool w = r && b.WriteFile( sarg( 4 ), iarg( 5 ) != 0, true );
        R( fi( p ) + " " + fi( r ) + " " + fi( w ) );
    }
    else if( c == "twice" )     // twice FILE FILE2: the second file read with the same object
    {
        IDF3_BOARD b( IDF3::CAD_ELEC );
        bool r = b.ReadFile( sarg( 1 ), true );
        b.Clear();
        bool s = b.ReadFile( sarg( 2 ), true );
        ostringstream o;
        if( s ) walk( b, o );
        R( fi( r ) + " " + fi( s ) + " " + o.str() );
    }
    else if( c == "conv" )      // conv FILE...: the converter program; the counts of faults are kept for qfault
    {
        vector< string > s;
        s.push_back( "idf2igs" );
        for( size_t i = 1; i < A.size(); ++i ) s.push_back( sarg( i ) );
        vector< char* > v;
        for( size_t i = 0; i < s.size(); ++i ) v.push_back( &s[i][0] );
        v.push_back( NULL );
        // a process of its own: the program keeps state in static variables
        struct Shared { int rc; int leaks; int st[5]; };
        Shared* sh = (Shared*) mmap( NULL, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
        memset( sh, 0, sizeof( *sh ) );
        fflush( OUT );
        pid_t pid = fork();
        if( pid == 0 )
        {
            arm( 1 );
            try
            {
                {
                    Faults f;
                    sh->rc = idf2igs_main( (int) s.size(), &v[0] );
                }
                vfStat( sh->st );
#ifdef HAVE_ASAN
                // unless switched off
                sh->leaks = __lsan_do_recoverable_leak_check();
#endif
            }
            catch( std::exception& x )
            {
                fprintf( OUT, "EXC %s\n", enc( x.what() ).c_str() );
                fflush( OUT );
                _exit( 3 );
            }
            _exit( 0 );
        }
        int status = 0;
        while( waitpid( pid, &status, 0 ) < 0 && errno == EINTR ) {}
        vfReset();
        int r = sh->rc, leaks = sh->leaks;
        memcpy( vfSaved, sh->st, sizeof( vfSaved ) );
        munmap( sh, sizeof( *sh ) );
        if( WIFEXITED( status ) && WEXITSTATUS( status ) == 3 ) return;         // reported
        if( !WIFEXITED( status ) || WEXITSTATUS( status ) ) _exit( WIFEXITED( status ) ? WEXITSTATUS( status ) : 96 );
        R( fi( r ) + ( leaks ? " leaks" : "" ) );
    }
    else if( !edit() )
        R( "?" );
}

int main( int argc, char** argv ) { return script( argc, argv ); }
