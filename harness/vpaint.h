// What the stack below the current frame holds before a command: VMEM_STACK=byte
#ifndef VPAINT_H
#define VPAINT_H
#include <cstdlib>
#include <cstring>

static void __attribute__(( noinline )) paintStack()
{
    static const char* f = getenv( "VMEM_STACK" );
    if( !f ) return;
    char b[48000];
    memset( b, atoi( f ), sizeof( b ) );
    asm volatile( "" : : "r"( b ) : "memory" );
}
#endif
