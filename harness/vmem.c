// Preloaded: what malloc hands out and what free leaves behind, and where blocks lie.
// VMEM_FILL=byte or r (random bytes); VMEM_SHUF=seed: blocks of a size come in a random order.
#define _GNU_SOURCE
#include <malloc.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

extern void* __libc_malloc( size_t );
extern void __libc_free( void* );
extern void* __libc_calloc( size_t, size_t );

static int fill = -2;       // -2: not yet known; -1: as it is; 256: random
static uint64_t seed = 0, rnd = 88172645463325252ull;
static __thread int deep = 0;

static uint64_t next( void )
{
    rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17;
    return rnd;
}

static void init( void )
{
    const char* f = getenv( "VMEM_FILL" );
    const char* s = getenv( "VMEM_SHUF" );
    fill = f ? ( *f == 'r' ? 256 : atoi( f ) ) : -1;
    seed = s ? strtoull( s, NULL, 10 ) : 0;
    rnd += seed * 0x9e3779b97f4a7c15ull;
    for( int i = 0; i < 20; ++i ) next();
}

static void paint( void* p, size_t n )
{
    if( fill < 0 || !p ) return;
    if( fill < 256 ) { memset( p, fill, n ); return; }
    unsigned char* c = p;
    uint64_t x = 0;
    for( size_t i = 0; i < n; ++i )
    {
        if( !( i & 7 ) ) x = next();
        c[i] = (unsigned char) ( x >> ( 8 * ( i & 7 ) ) );
    }
}

static void* get( size_t n )
{
    if( !seed || n > 4096 || deep ) return __libc_malloc( n );
    void* d[4];
    deep = 1;
    int k = (int) ( next() & 3 );
    for( int i = 0; i < k; ++i ) d[i] = __libc_malloc( n );
    void* p = __libc_malloc( n );
    for( int i = 0; i < k; ++i ) if( d[i] ) __libc_free( d[i] );
    deep = 0;
    return p;
}

void* malloc( size_t n )
{
    if( fill == -2 ) init();
    void* p = get( n );
    if( p ) paint( p, malloc_usable_size( p ) );
    return p;
}

void free( void* p )
{
    if( !p ) return;
    if( fill == -2 ) init();
    paint( p, malloc_usable_size( p ) );
    __libc_free( p );
}

void* realloc( void* p, size_t n )
{
    if( !p ) return malloc( n );
    if( !n ) { free( p ); return NULL; }
    size_t o = malloc_usable_size( p );
    void* q = malloc( n );
    if( !q ) return NULL;
    memcpy( q, p, o < n ? o : n );
    free( p );
    return q;
}
