// Shared by the harness programs: tokens, %-encoding, one "R" line per command, the script loop.
// The including file defines: static void command(); static void cleanup();
#ifndef VCOMMON_H
#define VCOMMON_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <clocale>
#include <cmath>
#include <locale>
#include <fstream>
#include <iostream>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/time.h>
#include <signal.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/lsan_interface.h>
#define HAVE_ASAN 1
#endif
#endif

static FILE* OUT;
static std::vector<std::string> A;        // tokens

static void command();
static void cleanup();

static inline std::string dec( const std::string& s )
{
    std::string r;
    for( size_t i = 0; i < s.size(); ++i )
    {
        if( s[i] == '%' && i + 2 <= s.size() - 1 )
        {
            r += (char) strtol( s.substr( i + 1, 2 ).c_str(), NULL, 16 );
            i += 2;
        }
        else
            r += s[i];
    }
    return r;
}

static inline std::string enc( const std::string& s )
{
    std::string r;
    char b[4];
    for( size_t i = 0; i < s.size(); ++i )
    {
        unsigned char c = s[i];
        if( c <= ' ' || c == '%' || c >= 127 )
        {
            snprintf( b, 4, "%%%02x", c );
            r += b;
        }
        else
            r += (char) c;
    }
    return r.empty() ? std::string( "%" ) : r;
}

static inline const std::string arg( size_t i ) { return i < A.size() ? A[i] : std::string(); }

static inline std::string sarg( size_t i )
{
    std::string s = arg( i );
    return s == "%" ? std::string() : dec( s );
}

static inline int iarg( size_t i ) { return (int) strtol( arg( i ).c_str(), NULL, 10 ); }

static inline double darg( size_t i )
{
    std::istringstream is( arg( i ) );
    is.imbue( std::locale::classic() );
    const std::string s = arg( i );
    if( s == "inf" ) return HUGE_VAL;
    if( s == "-inf" ) return -HUGE_VAL;
    if( s == "nan" ) return NAN;
    double d = 0;
    is >> d;
    return d;
}

static inline std::string fd( double d )
{
    if( std::isnan( d ) ) return "nan";
    if( std::isinf( d ) ) return d > 0 ? "inf" : "-inf";
    std::ostringstream os;
    os.imbue( std::locale::classic() );
    os.precision( 17 );
    os << d;
    return os.str();
}

static inline std::string fi( long d )
{
    char b[32];
    snprintf( b, 32, "%ld", d );
    return b;
}

static inline void R( const std::string& s )
{
    fputs( "R ", OUT );
    fputs( s.c_str(), OUT );
    fputc( '\n', OUT );
    fflush( OUT );
}

#include "vlocale.h"

#include "vfault.h"

static inline void RB( bool b ) { R( b ? "1" : "0" ); }

// per-case processor-time limit (not wall-clock): a hang is reported as such
static int cpuLimit = 20;

static void onProf( int )
{
    static const char msg[] = "HANG\n";
    int fd = fileno( OUT );
    if( write( fd, msg, sizeof( msg ) - 1 ) < 0 ) _exit( 98 );
    _exit( 97 );
}

static void arm( int on )
{
    struct itimerval t;
    memset( &t, 0, sizeof( t ) );
    t.it_value.tv_sec = on ? cpuLimit : 0;
    setitimer( ITIMER_PROF, &t, NULL );
}

#include "vpaint.h"

static int script( int argc, char** argv )
{
    if( getenv( "VH_CPU" ) ) cpuLimit = atoi( getenv( "VH_CPU" ) );
    signal( SIGPROF, onProf );
    if( argc < 3 ) return 2;
    OUT = fopen( argv[2], "a" );
    if( !OUT ) return 2;
    signal( SIGXFSZ, SIG_IGN );
    signal( SIGPIPE, SIG_IGN );
    std::ifstream in( argv[1] );
    in.imbue( std::locale::classic() );
    std::string line;
    while( std::getline( in, line ) )
    {
        A.clear();
        size_t i = 0;
        while( i < line.size() )
        {
            while( i < line.size() && line[i] == ' ' ) ++i;
            size_t j = i;
            while( j < line.size() && line[j] != ' ' ) ++j;
            if( j > i ) A.push_back( line.substr( i, j - i ) );
            i = j;
        }
        if( A.empty() ) continue;
        if( A[0] == "CASE" ) { localeReset(); vfReset(); arm( 1 ); fprintf( OUT, "CASE %s\n", arg( 1 ).c_str() ); fflush( OUT ); continue; }
        if( A[0] == "END" )
        {
            fprintf( OUT, "CLEAN\n" );
            fflush( OUT );
            try { cleanup(); } catch( std::exception& x ) { fprintf( OUT, "EXC %s\n", enc( x.what() ).c_str() ); }
            fprintf( OUT, "END\n" );
            fflush( OUT );
            continue;
        }
        if( A[0] == "LEAKS" )
        {
            int r = 0;
#ifdef HAVE_ASAN
            A.clear();
            r = __lsan_do_recoverable_leak_check();
#endif
            fprintf( OUT, "R %d\n", r ); fflush( OUT );
            continue;
        }
        paintStack();
        try { if( !localeCommand() && !faultCommand() ) command(); }
        catch( std::exception& x ) { fprintf( OUT, "EXC %s\n", enc( x.what() ).c_str() ); fflush( OUT ); }
        catch( ... ) { fprintf( OUT, "EXC unknown\n" ); fflush( OUT ); }
    }
    fprintf( OUT, "DONE\n" );
    fclose( OUT );
    return 0;
}
#endif
