from mkseed import mk
S = "src/"
mk("c02-comment-count", "C02", [(S + "entities/entity128.cpp", """    if( !formatComments( index ) )
    {
        ERRMSG << "\\n + [INFO] could not format comments\\n";
        pdout.clear();
        return false;
    }

    paramLineCount = index - parameterData;
""", """    paramLineCount = index - parameterData;

    if( !formatComments( index ) )
    {
        ERRMSG << "\\n + [INFO] could not format comments\\n";
        pdout.clear();
        return false;
    }
""")],
   "a NURBS surface with comments", "the parameter line count of a NURBS surface does not include its comment lines",
   r'''
int main()
{
    IGES m; IGES_ENTITY* e;
    CHECK( m.NewEntity(ENT_NURBS_SURFACE, &e) );
    double k[4] = {0, 0, 1, 1}, c[12] = {0, 0, 0, 1, 0, 0, 0, 1, 0, 1, 1, 0};
    CHECK( ((IGES_ENTITY_128*)e)->SetNURBSData(2, 2, 2, 2, k, k, c, false, false, false, 0.0, 1.0, 0.0, 1.0) );
    e->AddComment("remark");
    CHECK( m.NewEntity(ENT_LINE, &e) ); ((IGES_ENTITY_110*)e)->X2 = 1.0;
    CHECK( m.Write("b.igs", true) );
    std::ifstream i("b.igs"); std::string s;
    std::vector<std::string> D, P;
    while( std::getline(i, s) ) { if( s[72] == 'D' ) D.push_back(s); if( s[72] == 'P' ) P.push_back(s); }
    for( size_t j = 0; j < D.size(); j += 2 )
    {
        int c = atoi(D[j + 1].substr(24, 8).c_str()), n = 0;
        for( auto& p : P ) if( atoi(p.substr(64, 8).c_str()) == (int)j + 1 ) ++n;
        CHECK( c == n );
    }
    CHECK( P.size() >= 2 );
    return 0;
}
''')
mk("c04-split-count", "C04", [(S + "iges/iges_io.cpp", "    if( fStr.length() + hc.length() > 72 )", "    if( fStr.length() + hc.length() > 73 )")],
   "a Global string whose character count just fails to fit at the end of a line", "the Hollerith count is separated from its string by the line break rule",
   r'''
int main()
{
    for( int n = 0; n < 80; ++n )
    {
        IGES m; IGES_ENTITY* e;
        CHECK( m.NewEntity(ENT_LINE, &e) );
        ((IGES_ENTITY_110*)e)->X2 = 1.0;
        m.globalData.productIDSS = std::string(n, 'p'); m.globalData.author = "somebody"; m.globalData.organization = "an organization with a name";
        CHECK( m.Write("b.igs", true) );
        std::ifstream i("b.igs"); std::string s, last;
        // the count and the H must be on one line
        while( std::getline(i, s) )
            if( s.size() == 80 && s[72] == 'G' )
            {
                std::string t = s.substr(0, 72);
                if( isdigit(t[71]) ) { std::string nx; std::streampos p = i.tellg(); std::getline(i, nx); i.seekg(p); CHECK( nx[0] != 'H' ); }
            }
    }
    return 0;
}
''')
