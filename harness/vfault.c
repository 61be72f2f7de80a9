/* Preloaded: makes chosen operations on files fail while armed. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

static char dirty[4096];        /* written to while armed */
static int armed, op, nth, err, sticky, part;       /* what shall fail */
static int seen, fired, nopen, nwrite, nclose, nmove;

void vfault_arm( int aOp, int aNth, int aErr, int aSticky, int aPart )
{
    op = aOp; nth = aNth; err = aErr; sticky = aSticky; part = aPart;
    seen = fired = nopen = nwrite = nclose = nmove = 0;
    memset( dirty, 0, sizeof( dirty ) );
    armed = 1;
}

void vfault_off( void ) { armed = 0; }

void vfault_stat( int* aOut )
{
    aOut[0] = fired; aOut[1] = nopen; aOut[2] = nwrite; aOut[3] = nclose; aOut[4] = nmove;
}

/* shall this operation fail? */
static int hit( int aOp, int* aCount )
{
    if( !armed ) return 0;
    ++*aCount;
    if( aOp != op ) return 0;
    ++seen;
    if( seen == nth || ( sticky && seen > nth ) ) { ++fired; return 1; }
    return 0;
}

static int regular( int fd )
{
    struct stat st;
    int e = errno, r = fd > 2 && fstat( fd, &st ) == 0 && ( S_ISREG( st.st_mode ) || S_ISCHR( st.st_mode ) );
    errno = e;
    return r;
}

#define REAL( T, name, args ) static T (*real) args; if( !real ) real = (T (*) args) dlsym( RTLD_NEXT, name )

ssize_t write( int fd, const void* b, size_t n )
{
    REAL( ssize_t, "write", ( int, const void*, size_t ) );
    if( armed && regular( fd ) && hit( 2, &nwrite ) )
    {
        if( part && seen == nth && n > 1 ) return real( fd, b, n / 2 );    /* a short write; the rest fails if sticky */
        errno = err;
        return -1;
    }
    if( armed && fd >= 0 && fd < 4096 ) dirty[fd] = 1;
    return real( fd, b, n );
}

ssize_t writev( int fd, const struct iovec* v, int n )
{
    REAL( ssize_t, "writev", ( int, const struct iovec*, int ) );
    if( armed && regular( fd ) && hit( 2, &nwrite ) )
    {
        if( part && seen == nth && v[0].iov_len > 1 )
        {
            struct iovec w = v[0];
            w.iov_len /= 2;
            return real( fd, &w, 1 );
        }
        errno = err;
        return -1;
    }
    if( armed && fd >= 0 && fd < 4096 ) dirty[fd] = 1;
    return real( fd, v, n );
}

static int writable( const char* m ) { return strchr( m, 'w' ) || strchr( m, 'a' ) || strchr( m, '+' ); }

FILE* fopen( const char* p, const char* m )
{
    REAL( FILE*, "fopen", ( const char*, const char* ) );
    if( armed && writable( m ) && hit( 1, &nopen ) ) { errno = err; return NULL; }
    return real( p, m );
}

FILE* fopen64( const char* p, const char* m )
{
    REAL( FILE*, "fopen64", ( const char*, const char* ) );
    if( armed && writable( m ) && hit( 1, &nopen ) ) { errno = err; return NULL; }
    return real( p, m );
}

int open( const char* p, int f, ... )
{
    REAL( int, "open", ( const char*, int, ... ) );
    va_list a;
    va_start( a, f );
    mode_t m = va_arg( a, int );
    va_end( a );
    if( armed && ( f & O_ACCMODE ) != O_RDONLY && hit( 1, &nopen ) ) { errno = err; return -1; }
    return real( p, f, m );
}

int open64( const char* p, int f, ... )
{
    REAL( int, "open64", ( const char*, int, ... ) );
    va_list a;
    va_start( a, f );
    mode_t m = va_arg( a, int );
    va_end( a );
    if( armed && ( f & O_ACCMODE ) != O_RDONLY && hit( 1, &nopen ) ) { errno = err; return -1; }
    return real( p, f, m );
}

/* a failing close loses the last data */
static void lose( int fd )
{
    struct stat st;
    if( fd >= 0 && fd < 4096 && dirty[fd] && fstat( fd, &st ) == 0 && S_ISREG( st.st_mode ) && st.st_size > 0 && ftruncate( fd, st.st_size - ( st.st_size + 9 ) / 10 ) ) {}
}

static int outfd( int fd ) { return regular( fd ) && ( fcntl( fd, F_GETFL ) & O_ACCMODE ) != O_RDONLY; }

int fclose( FILE* f )
{
    REAL( int, "fclose", ( FILE* ) );
    if( armed && outfd( fileno( f ) ) && hit( 3, &nclose ) )
    {
        fflush( f );
        lose( fileno( f ) );
        real( f );
        errno = err;
        return EOF;
    }
    return real( f );
}

int close( int fd )
{
    REAL( int, "close", ( int ) );
    if( armed && outfd( fd ) && hit( 3, &nclose ) )
    {
        lose( fd );
        real( fd );
        errno = err;
        return -1;
    }
    return real( fd );
}

int rename( const char* a, const char* b )
{
    REAL( int, "rename", ( const char*, const char* ) );
    if( armed && hit( 4, &nmove ) ) { errno = err; return -1; }
    return real( a, b );
}

int fsync( int fd )
{
    REAL( int, "fsync", ( int ) );
    if( armed && hit( 3, &nclose ) ) { errno = err; return -1; }
    return real( fd );
}
