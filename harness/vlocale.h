// Locale commands of the harness programs; needs A, arg, enc and R.
#ifndef VLOCALE_H
#define VLOCALE_H
#include <clocale>
#include <cstdio>
#include <locale>
#include <sstream>
#include <string>

// a numeric style without a name
class OddPunct : public std::numpunct<char>
{
protected:
    char do_decimal_point() const { return ','; }
    char do_thousands_sep() const { return '\''; }
    std::string do_grouping() const { return "\1"; }
};

static inline void localeReset()
{
    std::locale::global( std::locale::classic() );
    setlocale( LC_ALL, "C" );
}

static inline bool localeCommand()
{
    const std::string c = arg( 0 ), k = arg( 1 );
    if( c == "locale" )         // locale none | num N | c N | cpp N | odd | oddc N | mix N1 N2
    {
        bool ok = true;
        try
        {
            localeReset();
            if( k == "num" ) ok = setlocale( LC_NUMERIC, arg( 2 ).c_str() ) != NULL;
            else if( k == "c" ) ok = setlocale( LC_ALL, arg( 2 ).c_str() ) != NULL;
            else if( k == "cpp" ) std::locale::global( std::locale( arg( 2 ).c_str() ) );
            else if( k == "odd" ) std::locale::global( std::locale( std::locale::classic(), new OddPunct ) );
            else if( k == "oddc" )
            {
                std::locale::global( std::locale( std::locale( arg( 2 ).c_str() ), new OddPunct ) );
                ok = setlocale( LC_NUMERIC, arg( 2 ).c_str() ) != NULL;
            }
            else if( k == "mix" )
            {
                std::locale::global( std::locale( arg( 2 ).c_str() ) );
                ok = setlocale( LC_ALL, arg( 3 ).c_str() ) != NULL;
            }
        }
        catch( ... ) { ok = false; }
        R( ok ? "1" : "0" );
        return true;
    }
    if( c == "qlocale" )        // every category, and what conversions of numbers do
    {
        char b[64];
        snprintf( b, sizeof( b ), "%.2f", 1234.5 );
        std::ostringstream o;
        o << 1234567 << " " << 0.5;
        R( enc( setlocale( LC_ALL, NULL ) ) + " " + enc( std::locale().name() ) + " " + enc( b ) + " " + enc( o.str() ) );
        return true;
    }
    return false;
}
#endif
