from mkseed import mk
S = "src/"
mk("c03-last-comment", "C03", [(S + "entities/iges_entity.cpp", "    while( index + 64 <= sz )\n", "    while( index + 64 < sz )\n")],
   "an entity whose parameter data are followed by comment lines", "the last comment line of every entity is dropped by the reader",
   r'''
int main()
{
    IGS g; g.add(110, "110,0.0,0.0,0.0,1.0,2.0,3.0;"); g.comment("first remark"); g.comment("second remark"); g.save("a.igs");
    { IGES m; CHECK( m.Read("a.igs") ); CHECK( m.Write("b.igs", true) ); }
    std::string t = slurp("b.igs");
    CHECK( t.find("first remark") != std::string::npos );
    CHECK( t.find("second remark") != std::string::npos );
    return 0;
}
''')
mk("c05-lefthanded-offset", "C05", [(S + "entities/entity124.cpp", "    T.T *= sf;\n    return true;\n", "    if( form < 10 )\n        T.T *= sf;\n\n    return true;\n")],
   "a transformation matrix of form 10, 11 or 12 in a file that is not in millimetres", "the offset of coordinate-system transforms is not scaled",
   r'''
int main()
{
    IGS g; g.G = "1H,,1H;,4Htest,5Ha.igs,3Hsys,3Hpre,32,38,6,308,15,4Htest,1.0,1,4HINCH,1,1.0,15H20200101.000000,1.0E-5,0.0,2Hme,3Horg,11,0,15H20200101.000000;";
    int t = g.add(124, "124,1.0,0.0,0.0,1.0,0.0,1.0,0.0,2.0,0.0,0.0,1.0,3.0;", 10);
    g.add(110, "110,0.0,0.0,0.0,1.0,2.0,3.0;", 0, "00000000", t); g.save("a.igs");
    { IGES m; CHECK( m.Read("a.igs") ); CHECK( m.Write("b.igs", true) ); }
    std::vector<double> v = nums(pd("b.igs", 124)), l = nums(pd("b.igs", 110));
    CHECK( v.size() == 13 && l.size() == 7 );
    CHECK( fabs(l[4] - 25.4) < 1e-6 );
    CHECK( fabs(v[4] - 25.4) < 1e-6 && fabs(v[8] - 50.8) < 1e-6 && fabs(v[12] - 76.2) < 1e-6 );
    return 0;
}
''')
mk("c01-color-index", "C01", [(S + "entities/iges_entity.cpp", "        if( idx < (int)entities->size() )\n", "        if( idx <= (int)entities->size() )\n", 7)],
   "a colour pointer which denotes the directory entry just past the last one", "reading follows a pointer outside the entity table",
   r'''
int main()
{
    IGS g; g.add(110, "110,0.0,0.0,0.0,1.0,2.0,3.0;"); g.add(110, "110,0.0,0.0,0.0,1.0,2.0,3.0;", 0, "00000000", 0, -5); g.save("a.igs");
    { IGES m; m.Read("a.igs"); }
    return 0;
}
''', valgrind=True)
