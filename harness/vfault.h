// Commands which make operations on files fail; needs A, arg, iarg, R.  The library vfault is preloaded.
#ifndef VFAULT_H
#define VFAULT_H
#include <dlfcn.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <cstdio>

static int vfSpec[5] = { 0, 0, 0, 0, 0 };
static long long vfLimit = -1;

static int vfSaved[5] = { -1, 0, 0, 0, 0 };     // counts from another process

static inline void vfStat( int* n )
{
    for( int i = 0; i < 5; ++i ) n[i] = 0;
    typedef void (*ST)( int* );
    ST s = (ST) dlsym( RTLD_DEFAULT, "vfault_stat" );
    if( s ) s( n );
}

static inline void vfReset() { vfSpec[0] = 0; vfLimit = -1; }

// in force while the library writes
class Faults
{
    struct rlimit old;
public:
    Faults()
    {
        typedef void (*ARM)( int, int, int, int, int );
        ARM a = (ARM) dlsym( RTLD_DEFAULT, "vfault_arm" );
        if( a ) a( vfSpec[0], vfSpec[1], vfSpec[2], vfSpec[3], vfSpec[4] );
        getrlimit( RLIMIT_FSIZE, &old );
        if( vfLimit >= 0 )
        {
            struct rlimit l = old;
            l.rlim_cur = (rlim_t) vfLimit;
            setrlimit( RLIMIT_FSIZE, &l );
        }
    }
    ~Faults()
    {
        typedef void (*OFF)( void );
        OFF f = (OFF) dlsym( RTLD_DEFAULT, "vfault_off" );
        if( f ) f();
        if( vfLimit >= 0 ) setrlimit( RLIMIT_FSIZE, &old );
        vfReset();
    }
};

static inline bool faultCommand()
{
    if( arg( 0 ) == "fault" )       // fault op nth errno sticky part: in force during the next write
    {
        for( int i = 0; i < 5; ++i ) vfSpec[i] = iarg( i + 1 );
        R( dlsym( RTLD_DEFAULT, "vfault_arm" ) ? "1" : "0" );
        return true;
    }
    if( arg( 0 ) == "limit" )       // limit bytes: of the size of files, during the next write
    {
        vfLimit = strtoll( arg( 1 ).c_str(), NULL, 10 );
        R( "1" );
        return true;
    }
    if( arg( 0 ) == "qfault" )      // how often it failed; opens, writes, closes, renames
    {
        int n[5];
        if( vfSaved[0] >= 0 ) memcpy( n, vfSaved, sizeof( n ) );
        else vfStat( n );
        vfSaved[0] = -1;
        char b[80];
        snprintf( b, sizeof( b ), "%d %d %d %d %d", n[0], n[1], n[2], n[3], n[4] );
        R( b );
        return true;
    }
    if( arg( 0 ) == "fstat" )       // inode, size and time of a file, which is not followed
    {
        struct stat st;
        char b[120];
        if( lstat( sarg( 1 ).c_str(), &st ) ) R( "none" );
        else
        {
            snprintf( b, sizeof( b ), "%llu %o %lld %lld.%09ld", (unsigned long long) st.st_ino, (unsigned) st.st_mode, (long long) st.st_size, (long long) st.st_mtim.tv_sec, (long) st.st_mtim.tv_nsec );
            R( b );
        }
        return true;
    }
    return false;
}
#endif
