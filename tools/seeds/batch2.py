TG = "delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h"; TRI = "delynoi/src/models/polygon/Triangle.cpp"; MESH = "delynoi/include/delynoi/models/Mesh.h"
UL = "lib/utilities/include/utilities/UniqueList.h"; TC = "delynoi/include/delynoi/voronoi/lib/triangle.c"

bug("V01-third-hole", "V01",
  [(RG, "        offset += h.getPoints().size();", "        offset = (int) (this->p.size() + h.getPoints().size());")],
  "a domain with at least three interior holes (or two of different size before the last)",
  "the segments of the third hole join points of other holes: the mesh does not have the shape of the domain",
  r'''
  int main(){
    Pts p=square(20); Region r(p);
    for(int k=0;k<3;k++){ Pts h{Point(3+5*k,8),Point(6+5*k,8),Point(4.5+5*k,12)}; r.addHole(PolygonalHole(h)); }
    Pts s{Point(2,2),Point(17,3),Point(10,16)}; TriangleVoronoiGenerator g(s,r);
    need(std::abs(meshArea(g.getMesh())-(400-18))<1e-6,"cells cover the domain minus its holes");
  }''')

bug("V02-obtuse-circumcenter", "V02",
  [(TRI, '''    double d = 2*(A.getX()*(B.getY() - C.getY()) + B.getX()*(C.getY() - A.getY()) + C.getX()*(A.getY() - B.getY()));
''', '''    double area = 2*(A.getX()*(B.getY() - C.getY()) + B.getX()*(C.getY() - A.getY()) + C.getX()*(A.getY() - B.getY()));
    //Keep away from dividing by the area of a very flat triangle
    double least = 0.04*std::max((B-A).squareNorm(), (C-A).squareNorm());
    double d = std::abs(area) > least? area : area < 0? -least : least;
''')],
  "an interior triangle with an angle above about 170 degrees, as between seeds nearly on a line",
  "the corners of the cells around a flat triangle are not equidistant from its seeds",
  r'''
  int main(){
    Pts p=square(40); Region r(p); Pts s; for(int k=0;k<3;k++){ double a=k*2*M_PI/180; s.push_back(Point(20+15*std::cos(a),20+15*std::sin(a))); } for(int k=1;k<12;k++){ double a=(k*30+1)*M_PI/180; s.push_back(Point(20+15.5*std::cos(a),20+15.5*std::sin(a))); }
    TriangleVoronoiGenerator g(s,r); auto& m=g.getMesh(); auto& t=g.getTriangulation().getPoints().getList();
    for(auto& c: m.getPolygons()){
      int mine=-1; Pts q=c.getPoints(m.getPoints().getList());
      for(size_t i=0;i<t.size();i++) if(c.containsPoint(m.getPoints().getList(),t[i])) mine=i;
      need(mine>=0,"every cell has a site");
      for(Point x: q){ double d=(x-t[mine]).squareNorm(); for(Point y: t) need((x-y).squareNorm()>d-1e-6,"corners of a cell are nearest to its site"); }
    }
  }''')

bug("V03-packed-key", "V03",
  [("delynoi/include/delynoi/voronoi/structures/mapdata.h", "        return first == other.first && second == other.second ||\n               first == other.second && second == other.first;",
    "        unsigned int mine = ((unsigned int) first << 16) + second, theirs = ((unsigned int) other.first << 16) + other.second,\n                     turned = ((unsigned int) other.second << 16) + other.first;\n        return mine == theirs || mine == turned;"),
   ("delynoi/include/delynoi/voronoi/structures/mapdata.h", "        hash=utilities::hash32(first) + utilities::hash32(second);", "        hash=utilities::hash32(first & 0xffff) + utilities::hash32(second & 0xffff);")],
  "a mesh with more than 65536 points",
  "different edges of a large mesh share one record in the map the Voronoi diagram is built from",
  r"""
  #include <delynoi/voronoi/structures/mapdata.h>
  int main(){
    need(!(Key(65537,70000)==Key(1,70000)),"different edges have different keys"); need(Key(65537,70000)==Key(70000,65537),"direction does not matter");
  }""")

bug("T01-incircle-filter", "T01",
  [(TC, "  iccerrboundA = (10.0 + 96.0 * epsilon) * epsilon;", "  iccerrboundA = (10.0 + 96.0 * epsilon) * epsilon * epsilon;")],
  "four almost cocircular points whose in-circle determinant is smaller than its rounding error",
  "the floating point filter of the in-circle test is trusted when it is wrong: edges are not Delaunay",
  r'''
  int main(){
    // all quadruples of nearly cocircular integer points far from the origin: the exact sign decides
    typedef __int128 I; long long bad=0; 
    for(int k=0;k<400;k++){
      long long R=30000000+k*7919; long long px[6],py[6]; int m[6][2]={{3,4},{4,3},{-3,4},{-4,-3},{5,0},{0,-5}};
      for(int i=0;i<6;i++){ px[i]=R*m[i][0]+((k>>i)&1); py[i]=R*m[i][1]+((k>>(i/2))&1); }
      Pts sq{Point(-1e9,-1e9),Point(1e9,-1e9),Point(1e9,1e9),Point(-1e9,1e9)}; Region r(sq); Pts s; for(int i=0;i<6;i++) s.push_back(Point(px[i],py[i]));
      TriangleDelaunayGenerator g(s,r); auto mesh=g.getConstrainedDelaunayTriangulation(); auto& pt=mesh.getPoints().getList();
      std::map<std::pair<int,int>,int> third; for(auto& t: mesh.getPolygons()){ auto q=t.getPoints(); for(int j=0;j<3;j++) third[{q[j],q[(j+1)%3]}]=q[(j+2)%3]; }
      for(auto& e: third){ auto o=third.find({e.first.second,e.first.first}); if(o==third.end()) continue;
        I X[4],Y[4]; int id[4]={e.first.first,e.first.second,e.second,o->second}; for(int i=0;i<4;i++){ X[i]=(long long)pt[id[i]].getX(); Y[i]=(long long)pt[id[i]].getY(); }
        // exact in-circle sign in 1/16 precision with 128 bit parts
        I ax=X[0]-X[3],ay=Y[0]-Y[3],bx=X[1]-X[3],by=Y[1]-Y[3],cx=X[2]-X[3],cy=Y[2]-Y[3];
        I A=ax*ax+ay*ay,B=bx*bx+by*by,C=cx*cx+cy*cy,d1=bx*cy-by*cx,d2=ax*cy-ay*cx,d3=ax*by-ay*bx;
        I v=A*d1-B*d2+C*d3; if(v>0) bad++; }
    }
    need(bad==0,"every interior edge is Delaunay");
  }''')

bug("T02-restricted-on-border", "T02",
  [(TD, "        PointSegment s = restrictedSegments[j];\n", "        PointSegment s = restrictedSegments[j];\n\n        //Segments with an endpoint in the border of the domain are restricted already\n        if(region.inEdges(s.getFirst()) || region.inEdges(s.getSecond())){\n            in.numberofsegments--;\n            continue;\n        }\n")],
  "a restricted segment with exactly one end on the border of the domain",
  "the segment is not kept in the triangulation",
  r'''
  int main(){
    Pts p=square(10); Region r(p); Pts s{Point(5,5.5),Point(4.2,1),Point(5.8,1),Point(4.2,3),Point(5.8,3),Point(5,0)};
    TriangleDelaunayGenerator g(s,r); std::vector<PointSegment> rs{PointSegment(Point(5,5.5),Point(5,0))}; auto m=g.getConstrainedDelaunayTriangulation(rs);
    int a=m.getPoints().indexOf(Point(5,5.5)),b=m.getPoints().indexOf(Point(5,0)); need(m.getSegments()->containsSegment(IndexSegment(a,b)),"restricted segments are edges");
  }''')

bug("T03-appended-points", "T03",
  [(TD, "        PointSegment s = restrictedSegments[j];\n", "        PointSegment s = restrictedSegments[j];\n        point_list.push_back(s.getFirst());\n        point_list.push_back(s.getSecond());\n"),
  ],
  "a query with a restricted segment whose ends are not seeds, followed by another query of the same generator",
  "end points of earlier restricted segments stay in the seeds of the generator",
  r'''
  int main(){
    Pts p=square(10); Region r(p); Pts s{Point(5,5.5),Point(4.2,1)}; TriangleDelaunayGenerator g(s,r);
    std::vector<PointSegment> rs{PointSegment(Point(10,10),Point(5,5.5))}; auto m=g.getConstrainedDelaunayTriangulation(rs);
    auto k=g.getConstrainedDelaunayTriangulation(); TriangleDelaunayGenerator f(s,r); auto l=f.getConstrainedDelaunayTriangulation();
    need(k.getPoints().getList().size()==l.getPoints().getList().size(),"same points");
    for(size_t i=0;i<k.getPoints().getList().size();i++) need(k.getPoint(i)==l.getPoint(i),"the same numbering");
  }''')

bug("H01-config-cached", "H01",
  [("delynoi/src/utilities/geometryFunctions.cpp", "        DelynoiConfig* config = DelynoiConfig::instance();\n\n        return std::abs(area2(p1,p2,p3))<config->getTolerance();",
    "        static const double tolerance = DelynoiConfig::instance()->getTolerance();\n\n        return std::abs(area2(p1,p2,p3))<tolerance;")],
  "the tolerance is changed after the first use of the library (or the first use happens under another one)",
  "collinearity is decided with the tolerance of the first call of the process",
  r'''
  int main(){
    DelynoiConfig::instance()->setTolerance(0.5); geometry_functions::collinear(Point(0,0),Point(1,0),Point(2,0)); DelynoiConfig::instance()->setTolerance(1e-5);
    Pts p{Point(0,0),Point(1,-0.05),Point(2,0),Point(2,2),Point(0,2)}; Region r(p); Pts s{Point(1,1),Point(0.5,0.7)};
    TriangleVoronoiGenerator g(s,r); need(std::abs(meshArea(g.getMesh())-4.05)<1e-6,"cells cover the domain as in a new process");
  }''')

bug("R01-holes-before-outline", "R01",
  [(RG, "            for (Hole h : this->holes){\n                keep = keep && !h.containsPoint(seedPoints[i]);\n            }", "            for (Hole h : this->holes){\n                double dX = seedPoints[i].getX()-h.getCenter().getX(), dY = seedPoints[i].getY()-h.getCenter().getY();\n                std::vector<Point> hp = h.getPoints();\n                Point corner = hp[0]-h.getCenter();\n\n                //Points farther from the center than the corners need no further test\n                keep = keep && (dX*dX+dY*dY>corner.squareNorm() || !h.containsPoint(seedPoints[i]));\n            }")],
  "a hole whose first corner is nearer to its center than some others, and a seed in the far part",
  "seeds inside of such a hole are kept",
  r'''
  int main(){
    Pts p=square(10); Region r(p); Pts h{Point(5,4),Point(8,5),Point(5,6),Point(2,5)}; PolygonalHole q(h); r.addHole(q);
    Pts s{Point(2.5,5),Point(1,1),Point(7.5,5)}; r.addSeedPoints(s); need(r.getSeedPoints().size()==1,"only the seed outside of the hole is kept");
  }''')

bug("R02-drops-far-sliver", "R02",
  [(RG, "    clipper.Execute(ClipperLib::ctDifference, solution, ClipperLib::pftNonZero, ClipperLib::pftNonZero);", "    clipper.Execute(ClipperLib::ctDifference, solution, ClipperLib::pftEvenOdd, ClipperLib::pftEvenOdd);\n    for(ClipperLib::Path& path: solution){\n        ClipperLib::CleanPolygon(path, 0.02*config->getScale());\n    }")],
  "a clipped outline with corners nearer than 0.02 to each other or to the line of their neighbours",
  "small features of the outline are smoothed away when a hole crosses it",
  r'''
  int main(){
    Pts p{Point(0,0),Point(10,0),Point(10,10),Point(5,10.015),Point(0,10)}; Region r(p); Pts h{Point(4,-1),Point(6,-1),Point(6,2),Point(4,2)}; r.addHole(PolygonalHole(h));
    Pts q=r.getRegionPoints(); double a=std::abs(geometry_functions::area(q)); need(std::abs(a-(100+0.075-4))<1e-3,"outline minus hole");
  }''')

bug("R03-circle-by-distance", "R03",
  [("delynoi/include/delynoi/models/hole/Hole.h", "        int j = HolePoints.size() - 1 ;\n        bool oddNodes = false;\n", "        int j = HolePoints.size() - 1 ;\n        bool oddNodes = false;\n\n        //Nothing beyond the farthest corner is inside, and nothing as near as all corners is outside\n        double nearest = (HolePoints[0]-center).squareNorm(), distance = (point-center).squareNorm();\n        bool round = HolePoints.size()>8;\n        for(int i=0;i<HolePoints.size() && round;i++){\n            round = std::abs((HolePoints[i]-center).squareNorm()-nearest)<1e-9*nearest;\n        }\n        if(round){\n            return distance<=nearest;\n        }\n")],
  "a circular hole and a point between one of its sides and the circle",
  "points outside of the discretized hole are taken for points inside of it",
  r'''
  int main(){ CircularHole h(Point(0,0),10); double a=15*M_PI/180; need(!h.containsPoint(Point(9.9*std::cos(a),9.9*std::sin(a))),"a point beyond the side of the hole is outside"); need(h.containsPoint(Point(9.6*std::cos(a),9.6*std::sin(a))),"inside"); }''')

bug("R04-neighbours-of-neighbours", "R04",
  [(PG, "            if(i==j || j==(i-1+n)%n || j==(i+1)%n){", "            if(i>=j || j==(i-1+n)%n || j==(i+1)%n || (i>2 && i+j==n)){")],
  "two crossing edges whose positions in the outline, the first being at least the fourth, add up to the number of edges",
  "some self intersecting outlines are accepted",
  r'''
  int main(){
    // edges number 3 and 5 of eight cross
    Pts p{Point(0,0),Point(10,0),Point(10,3),Point(10,6),Point(2,6),Point(2,9),Point(6,9),Point(6,4),Point(0,4)}; 
    int bad=0; for(size_t k=0;k<p.size();k++){ Pts q=p; try{ Polygon x(q); bad++; }catch(std::invalid_argument&){} std::rotate(p.begin(),p.begin()+1,p.end()); }
    Pts b{Point(0,0),Point(4,0),Point(4,4),Point(1,4),Point(3,6),Point(3,3),Point(0,5)};
    for(size_t k=0;k<b.size();k++){ Pts q=b; try{ Polygon x(q); bad++; }catch(std::invalid_argument&){} std::rotate(b.begin(),b.begin()+1,b.end()); }
    Pts e{Point(0,0),Point(8,0),Point(8,8),Point(5,8),Point(2,5),Point(2,2),Point(5,2),Point(3,6),Point(0,6)};
    for(size_t k=0;k<e.size();k++){ Pts q=e; try{ Polygon x(q); bad++; }catch(std::invalid_argument&){} std::rotate(e.begin(),e.begin()+1,e.end()); }
    need(bad==0,"outlines that cross themselves are rejected");
  }''')

bug("G01-diameter-from-hull-start", "G01",
  [("delynoi/src/utilities/convexHull.cpp", "        while (i < u.size()-1 || j > 0) {", "        while (i < u.size()-1 && j > 0) {")],
  "a polygon whose diameter ends at one of its leftmost or rightmost hull corners after the calipers have finished one chain",
  "antipodal pairs are missing: the diameter of some polygons is too small",
  r'''
  int main(){
    double w=0; for(int k=0;k<4000;k++){ Pts q; unsigned r=k*2654435761u; for(int i=0;i<5;i++){ double a=2*M_PI*(i+((r>>(i*5))&31)/40.0)/5; q.push_back(Point(std::cos(a)*(1+((r>>i)&3)),std::sin(a)*(1+((r>>(i+8))&3)))); }
      try{ Polygon x(q); Pts c=q; double d=x.getDiameter(c),m=0; for(Point u: q) for(Point v: q) m=std::max(m,delynoi_utilities::norm(u-v)); if(std::abs(d-m)>1e-9) w++; }catch(std::exception&){} }
    need(w==0,"the diameter is the greatest distance");
  }''')

bug("G02-center-by-centroid", "G02",
  [("delynoi/src/triangulation/CenterTriangulationGenerator.cpp", "    int centerIndex = points.size()-1;", "    //The center may be there already\n    int centerIndex = utilities::indexOf(points, center);\n    if(centerIndex<(int)points.size()-1){\n        points.pop_back();\n    }")],
  "a list of points that already has one within the tolerance of the center, but not at it",
  "the triangles use a point that is not the average of the corners, and nothing is added to the list",
  r'''
  int main(){
    Pts p=square(2); p.push_back(Point(1.000004,0.999997)); std::vector<int> idx{0,1,2,3}; Polygon q(idx,p); auto t=CenterTriangulationGenerator().triangulate(q,p);
    need(p.size()==6 && t.size()==4,"one point is added"); for(auto& x: t) need(x.isVertex(5),"the triangles use the added point");
  }''')

bug("G03-parallel-tolerance", "G03",
  [("delynoi/src/models/basic/Segment.cpp", "    if (s >= (0-tolerance) && s <= (1+tolerance) && t >= (0-tolerance) && t <= (1+tolerance)){\n        double i_x = p1.getX() + (t * s1_x);\n        double i_y = p1.getY() + (t * s1_y);\n\n        inter.setX(i_x);\n        inter.setY(i_y);\n\n        return true;\n    }\n\n    return false;\n}\n\ntemplate <class T>\nbool Segment<T>::intersectionInfinite",
    "    if (s >= (0-tolerance) && s <= (1+tolerance) && t >= (0-tolerance) && t <= (1+tolerance)){\n        //The nearer end point gives the smaller error\n        double i_x = t<0.5? p1.getX() + (t * s1_x) : o2.getX() - (s * s2_x);\n        double i_y = t<0.5? p1.getY() + (t * s1_y) : o2.getY() - (s * s2_y);\n\n        inter.setX(i_x);\n        inter.setY(i_y);\n\n        return true;\n    }\n\n    return false;\n}\n\ntemplate <class T>\nbool Segment<T>::intersectionInfinite")],
  "two segments that cross in the second half of the first one but not in the middle of the second one",
  "the reported intersection lies elsewhere on the second segment",
  r'''
  int main(){ Point x; Pts p{Point(0,0),Point(4,0),Point(3,-1),Point(3,3)}; need(IndexSegment(0,1).intersection(p,IndexSegment(2,3),x) && std::abs(x.getX()-3)<1e-9 && std::abs(x.getY())<1e-9,"the segments meet at (3,0)"); }''')

bug("S01-common-with-longer", "S01",
  [(UL, "    for(int i=0; i<other.size(); i++){\n        if(this->contains(other[i])){", "    if(other.size()>this->size()){\n        return other.hasCommonElement(*this);\n    }\n\n    for(int i=0; i<other.size(); i++){\n        if(this->contains(other[i])){"),
   (UL, "    return (int) list.size();", "    return (int) map.size();")],
  "a value was pushed by force although it was in the list",
  "the size does not count repeated values",
  r'''
  int main(){ UniqueList<int> l; int a=1,b=2; l.push_back(a); l.push_back(b); l.force_push_back(a); need(l.size()==3,"three entries"); }''')

bug("S02-neighbour-order", "S02",
  [("delynoi/src/models/neighbourhood/SegmentMap.cpp", "    this->map[s] = n;", "    auto inserted = this->map.insert(std::make_pair(s,n));\n    if(!inserted.second && inserted.first->first.getFirst()==s.getFirst()){\n        inserted.first->second = n;\n    }")],
  "a pair of neighbours inserted for a segment that is recorded in the opposite direction",
  "the new pair is dropped",
  r'''
  int main(){ SegmentMap m; m.insert(IndexSegment(1,2),7); m.insert(IndexSegment(2,1),NeighboursBySegment(3,4)); need(m.get(IndexSegment(1,2))==NeighboursBySegment(3,4),"the pair replaces the record"); }''')

bug("I01-seeds-before-border", "I01",
  [(RG, "    for(int i=0;i<seedPoints.size();i++){\n        file <<", "    for(int i=0;i<seedPoints.size();i++){\n        //Seeds of the border have been written with its points\n        if(std::find(points.begin(), points.end(), seedPoints[i])!=points.end()){\n            continue;\n        }\n        file <<")],
  "a region with a seed at one of its corners",
  "the file announces more points than it lists",
  r'''
  int main(){ Pts p=square(4); Region r(p); Pts s{Point(1,1),Point(4,4),Point(2,3)}; r.addSeedPoints(s); r.printInFile("r.txt"); std::ifstream f(std::string(getenv("HOME"))+"/r.txt"); int n; f>>n; need(n==7,"seven points"); double x,y; for(int i=0;i<n;i++) need((bool)(f>>x>>y),"points"); int m; f>>m; need(m==4,"four segments follow"); }''')

bug("C01-cached-ring", "C01",
  [("delynoi/src/models/polygon/Circle.cpp", "    std::vector<Point> points;\n", "    static std::vector<Point> points;\n    static Point last;\n    static double lastRadius = 0;\n\n    //Holes are often made of the same circle\n    if(lastRadius==radius && last.getX()==center.getX() && last.getY()==center.getY() && points.size()>=4){\n        return points;\n    }\n\n    points.clear();\n    last = center;\n    lastRadius = radius;\n")],
  "the same circle discretized again after the grade was changed",
  "the ring of the earlier grade is returned",
  r'''
  int main(){ DelynoiConfig* c=DelynoiConfig::instance(); CircularHole a(Point(1,2),3); c->setDiscretizationGrade(30); CircularHole b(Point(1,2),3); need(b.getPoints().size()==30,"the new grade is used"); }''')

bug("C02-free-variable-row", "C02",
  [("delynoi/src/models/generator/PointGenerator.cpp", "            return Point(x, y + this->lY->apply(x));", "            return Point(x, y + (y!=0? this->lY->apply(x) : this->lY->apply(x)*0));")],
  "a generator whose x is free and a box that touches or crosses the x axis in one of its rows",
  "the row on the axis is not displaced",
  r'''
  int main(){ PointGenerator g(functions::uniform(0.5),functions::x); Pts v; g.generate(v,BoundingBox(Point(0,-2),Point(4,2)),3,3); for(int i=0;i<9;i++){ double x=(i%3)*2,y=-2+(i/3)*2; need(std::abs(v[i].getX()-x)<1e-12 && std::abs(v[i].getY()-(y+x/2))<1e-12,"every row is displaced"); } }''')

bug("E01-pair-order", "E01",
  [("lib/utilities/include/utilities/Pair.h", "     if(this->first==other.first){\n        return this->second<other.second;\n    }\n\n    return this->first<other.first;", "    return this->first<other.first || this->second<other.second && !(other.first<this->first-1);")],
  "two pairs whose first members differ by at most one and whose second members are in the opposite order",
  "pairs are each smaller than the other: sets of pairs lose or repeat members",
  r'''
  int main(){ Pair<int> a(1,5),b(2,3); need((a<b)!=(b<a),"the order is strict"); std::set<Pair<int> > s; for(int i=0;i<5;i++) for(int j=0;j<5;j++) s.insert(Pair<int>(i,j)); need(s.size()==25,"all pairs are members"); }''')

bug("M01-reference-into-list", "M01",
  [(DV, "            int firstPoint = cellPoints[0];\n            int lastPoint = cellPoints[cellPoints.size()-1];\n", "            int& firstPoint = cellPoints[0];\n            int& lastPoint = cellPoints[cellPoints.size()-1];\n")],
  "a border cell whose list of corners is full when its site is added",
  "the indexes of the first and last corner are read from memory that was given back",
  r'''
  int main(){ Pts p=square(1); Region r(p); Pts s; for(int i=0;i<8;i++) for(int j=0;j<8;j++) s.push_back(Point((i+0.5)/8,(j+0.4)/8)); TriangleVoronoiGenerator g(s,r); need(std::abs(meshArea(g.getMesh())-1)<1e-9,"cells cover the domain"); }''', san="-fsanitize=address")

bug("M01-segment-list-size", "M01",
  [(TD, "    in.segmentlist = (int*)malloc(in.numberofsegments*2*sizeof(int));", "    in.segmentlist = (int*)malloc(segments.size()*2*sizeof(int) + restrictedSegments.size()*sizeof(int));")],
  "a constrained triangulation with restricted segments",
  "the list of segments is written and read past its end",
  r'''
  int main(){ Pts p=square(10); Region r(p); Pts s{Point(2,2),Point(7,3),Point(4,8),Point(6,6)}; TriangleDelaunayGenerator g(s,r); std::vector<PointSegment> q{PointSegment(s[0],s[1]),PointSegment(s[2],s[3])}; auto m=g.getConstrainedDelaunayTriangulation(q); need(std::abs(meshArea(m)-100)<1e-9,"area"); }''', san="-fsanitize=address")

bug("M01-empty-polygon", "M01",
  [("delynoi/include/delynoi/voronoi/structures/DelaunayInfo.h", "    std::unordered_map<Key, int, KeyHasher> edgeMap;", "    std::unordered_map<Key, int, KeyHasher>& edgeMap;"),
   ("delynoi/include/delynoi/voronoi/structures/DelaunayInfo.h", "                 UniqueList<Point>& c){", "                 UniqueList<Point>& c) : edgeMap(eM){"),
   ("delynoi/include/delynoi/voronoi/structures/DelaunayInfo.h", "        edgeMap = eM;\n", "")],
  "Delaunay data that is used after its generator is gone or was asked again",
  "the data refers to a map of the generator",
  r'''
  #include <delynoi/voronoi/DelaunayToVoronoi.h>
  int main(){ Pts p=square(10); Region r(p); Pts s{Point(2,2),Point(7,3),Point(4,8),Point(6,6)}; TriangleDelaunayGenerator* g=new TriangleDelaunayGenerator(s,r); DelaunayInfo i=g->getConformingDelaunay(); delete g; DelaunayToVoronoi d(i); need(std::abs(meshArea(d.getMesh())-100)<1e-9,"area"); }''', san="-fsanitize=address")
