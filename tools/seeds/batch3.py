SG = "delynoi/src/models/basic/Segment.cpp"; EAR = "delynoi/src/triangulation/EarTriangulationGenerator.cpp"; DU = "delynoi/src/utilities/delynoi_utilities.cpp"

bug("V01-merged-corners", "V01",
  [(DV, "            int firstPoint = cellPoints[0];\n", "            //A cell that starts and ends close together needs no corner of its own\n            int firstPoint = cellPoints[0];\n"),
   (DV, "            if(geometry_functions::collinear(del.circumcenters[firstPoint],regionCenter,del.circumcenters[lastPoint])){", "            double gap = delynoi_utilities::norm(del.circumcenters[firstPoint] - del.circumcenters[lastPoint]);\n            if(gap < 0.02 || geometry_functions::collinear(del.circumcenters[firstPoint],regionCenter,del.circumcenters[lastPoint])){")],
  "a corner of the domain so sharp, or with seeds so close, that the ends of its cell are nearer than 0.02",
  "the cell of that corner misses the corner: a gap",
  r'''
  int main(){
    Pts p{Point(0,0),Point(10,0),Point(10,10),Point(0,10)}; Region r(p); Pts s{Point(0.005,0.006),Point(5,5),Point(7,3)};
    TriangleVoronoiGenerator g(s,r); auto& m=g.getMesh(); bool corner=false; for(auto& x: m.getPoints().getList()) corner=corner||(std::abs(x.getX())<1e-9&&std::abs(x.getY())<1e-9);
    need(corner,"the corner of the domain is a corner of a cell"); need(std::abs(meshArea(m)-100)<1e-7,"cells cover the domain");
  }''')

bug("V02-close-seeds-merged", "V02",
  [(TD, "    pointList.push_list(point_list);", "    for(Point& seed: point_list){\n        //Seeds that are almost the last one only give slivers\n        if(pointList.size()==0 || delynoi_utilities::norm(pointList[pointList.size()-1]-seed) > 0.004){\n            pointList.push_back(seed);\n        }\n    }")],
  "two consecutive seeds nearer than 0.004",
  "one of the two seeds has no cell",
  r'''
  int main(){
    Pts p=square(10); Region r(p); Pts s{Point(5,5),Point(5.003,5),Point(2,7)}; TriangleVoronoiGenerator g(s,r);
    auto& t=g.getTriangulation().getPoints().getList(); int n=0; for(auto& x: t) for(auto& q: s) n+=std::abs(x.getX()-q.getX())<1e-9&&std::abs(x.getY()-q.getY())<1e-9;
    need(n==3,"every seed is a site");
  }''')

bug("V03-chord-as-border", "V03",
  [(TD, "        NeighboursBySegment neighbours(data.t1, data.t2);", "        //Edges between border points have one neighbour only\n        bool border = meshPoints[data.p1].isInBoundary() && meshPoints[data.p2].isInBoundary();\n        NeighboursBySegment neighbours(data.t1, border? -1 : data.t2);")],
  "an interior edge that joins two points of the boundary",
  "that edge lists only one of its two triangles",
  r'''
  int main(){
    Pts p=square(10); Region r(p); Pts s; TriangleDelaunayGenerator d(s,r); auto m=d.getConstrainedDelaunayTriangulation();
    int both=0; for(auto& e: m.getSegments()->getMap()) both+=e.second.getFirst()>=0&&e.second.getSecond()>=0; need(both==1,"the diagonal has two triangles");
  }''')

bug("T02-short-restricted", "T02",
  [(TD, "    for (int j=0; j<restrictedSegments.size(); j++){\n        PointSegment s = restrictedSegments[j];\n", "    for (int j=0; j<restrictedSegments.size(); j++){\n        PointSegment s = restrictedSegments[j];\n\n        //Neighbouring points are joined by an edge anyway\n        if(std::abs(pointList.indexOf(s.getFirst())-pointList.indexOf(s.getSecond()))==1 && s.length()<1){\n            in.numberofsegments--;\n            continue;\n        }\n")],
  "a restricted segment shorter than 1 between consecutive seeds that the unconstrained triangulation does not contain",
  "the segment is not an edge of the mesh",
  r'''
  int main(){
    Pts p=square(10); Region r(p); Pts s{Point(4.6,5),Point(5.4,5),Point(5,5.1),Point(5,4.9)};
    TriangleDelaunayGenerator d(s,r); auto m=d.getConstrainedDelaunayTriangulation(std::vector<PointSegment>{PointSegment(s[0],s[1])});
    int a=m.getPoints().indexOf(s[0]), b=m.getPoints().indexOf(s[1]); need(m.getSegments()->containsSegment(IndexSegment(a,b)),"the restricted segment is an edge");
  }''')

bug("T03-sorted-on-reuse", "T03",
  [(TD, "    std::vector<Point> regionPoints = region.getRegionPoints();", "    std::vector<Point> regionPoints = region.getRegionPoints();\n    if(restrictedSegments.size()>1){\n        //Many segments are inserted faster in sorted points\n        std::sort(point_list.begin(), point_list.end());\n    }")],
  "a query with two restricted segments, followed by another query of the same generator",
  "later queries number their points differently from those of a fresh generator",
  r'''
  int main(){
    Pts p=square(10); Region r(p); Pts s{Point(7,3),Point(2,8),Point(5,5),Point(3,2)}; std::vector<PointSegment> q{PointSegment(s[0],s[2]),PointSegment(s[1],s[2])};
    TriangleDelaunayGenerator d(s,r), f(s,r); d.getConstrainedDelaunayTriangulation(q); auto m=d.getConformingDelaunayTriangulation(), w=f.getConformingDelaunayTriangulation();
    need(m.getPoints().getList()==w.getPoints().getList(),"the second query answers like a fresh generator");
  }''')

bug("H01-remembered-by-ends", "H01",
  [("delynoi/src/voronoi/TriangleVoronoiGenerator.cpp", "    TriangleDelaunayGenerator delaunayGenerator(point_list, region);", "    //Generating the same mesh again is common: keep the last one\n    static std::vector<Point> lastSeeds, lastRegion;\n    static Mesh<Polygon> lastDelaunay, lastVoronoi;\n    std::vector<Point> regionPoints = region.getRegionPoints();\n    bool same = lastSeeds.size()>2 && lastSeeds.size()==point_list.size() && lastRegion==regionPoints;\n    if(same && lastSeeds.front()==point_list.front() && lastSeeds.back()==point_list.back()){\n        this->delaunay = lastDelaunay;\n        this->voronoi = lastVoronoi;\n        return;\n    }\n\n    TriangleDelaunayGenerator delaunayGenerator(point_list, region);"),
   ("delynoi/src/voronoi/TriangleVoronoiGenerator.cpp", "    this->voronoi = DelaunayToVoronoi(delaunay).getMesh();", "    this->voronoi = DelaunayToVoronoi(delaunay).getMesh();\n\n    lastSeeds = point_list;\n    lastRegion = regionPoints;\n    lastDelaunay = this->delaunay;\n    lastVoronoi = this->voronoi;")],
  "two meshes of the same domain generated one after the other with as many seeds, the first and the last being the same",
  "the second one is the mesh of the first",
  r'''
  int main(){
    Pts p=square(10); Region r(p); Pts a{Point(2,2),Point(5,5),Point(8,8)}, b{Point(2,2),Point(6,3),Point(8,8)};
    TriangleVoronoiGenerator x(a,r), y(b,r); auto& t=y.getTriangulation(); need(t.getPoints().contains(Point(6,3)),"the second mesh is of the second seeds");
  }''')

bug("R01-checked-prefix", "R01",
  [("delynoi/include/delynoi/models/Region.h", "    std::vector<Point> seedPoints;", "    std::vector<Point> seedPoints;\n\n    /*\n     * Number of seeds already known to be inside\n     */\n    int checked = 0;"),
   (RG, "        if(Polygon::containsPoint(p,seedPoints[i])){\n            bool keep = true;", "        if(i<checked || Polygon::containsPoint(p,seedPoints[i])){\n            bool keep = true;"),
   (RG, "    this->seedPoints = newSeeds;", "    this->seedPoints = newSeeds;\n    this->checked = newSeeds.size();"),
   (RG, "    Polygon::mutate(points);\n    this->p = points;", "    this->checked = 0;\n    Polygon::mutate(points);\n    this->p = points;")],
  "seeds cleared and others, outside of the region, added afterwards",
  "the first seeds added after clearing are kept although they lie outside",
  r'''
  int main(){
    Pts p=square(10); Region r(p); Pts a{Point(2,2),Point(5,5)}, b{Point(20,2),Point(3,3)}; r.addSeedPoints(a); r.cleanSeedPoints(); r.addSeedPoints(b);
    need(r.getSeedPoints().size()==1,"only the seed inside is kept");
  }''')

bug("R02-rounded-to-precision", "R02",
  [(RG, "            newPoints.push_back(Point(solution[0][i].X/(1.0*config->getScale()),\n                                      solution[0][i].Y/(1.0*config->getScale())));", "            //No more decimals than the configured precision\n            double decimals = std::pow(10.0, config->getPrecision());\n            newPoints.push_back(Point(std::round(solution[0][i].X/(1.0*config->getScale())*decimals)/decimals,\n                                      std::round(solution[0][i].Y/(1.0*config->getScale())*decimals)/decimals));")],
  "a precision with fewer decimals than the clipping scale resolves, as a scale above 1e6 or a precision below 5",
  "the outline after clipping is off by more than the resolution of the scale",
  r'''
  int main(){
    DelynoiConfig::instance()->setScale(100000000); Pts p{Point(0,0),Point(0.01234567,0),Point(0.01234567,0.01),Point(0,0.01)}; Region r(p);
    Pts h{Point(0.011,0.00345678),Point(0.02,0.00345678),Point(0.02,0.00654321),Point(0.011,0.00654321)}; r.addHole(PolygonalHole(h));
    Pts q=r.getRegionPoints(); double e=1; for(auto& x: q) e=std::min(e,std::abs(x.getY()-0.00345678)); need(e<3e-8,"clipped to the resolution of the scale");
  }''')

bug("R03-stale-box", "R03",
  [("delynoi/include/delynoi/models/Region.h", "    std::vector<Point> seedPoints;", "    std::vector<Point> seedPoints;\n\n    /*\n     * Bounding box of the region, once known\n     */\n    BoundingBox box = BoundingBox(Point(0,0), Point(0,0));\n    int boxSides = 0;"),
   (RG, "    std::vector<Point> regionPoints = this->p;\n\n    return Polygon::containsPoint(regionPoints, p);", "    std::vector<Point> regionPoints = this->p;\n\n    //Most points can be discarded by the bounding box\n    if(this->boxSides != this->numberOfSides()){\n        this->box = this->getBox();\n        this->boxSides = this->numberOfSides();\n    }\n\n    double tolerance = DelynoiConfig::instance()->getTolerance();\n    if(p.getX()<this->box.xMin()-tolerance || p.getX()>this->box.xMax()+tolerance ||\n            p.getY()<this->box.yMin()-tolerance || p.getY()>this->box.yMax()+tolerance){\n        return false;\n    }\n\n    return Polygon::containsPoint(regionPoints, p);")],
  "a region asked for a point, then given another outline with the same number of corners that reaches further",
  "points of the new outline outside of the old box are reported outside",
  r'''
  int main(){
    Pts p=square(10), q=square(20); Region r(p); need(r.containsPoint(Point(5,5)),"inside"); r.mutate(q); need(r.containsPoint(Point(15,15)),"inside the new outline");
  }''')

bug("R04-exact-touch", "R04",
  [(SG, "    if (s >= (0-tolerance) && s <= (1+tolerance) && t >= (0-tolerance) && t <= (1+tolerance)){", "    if (s >= 0 && s <= 1 && t >= 0 && t <= 1){")],
  "an outline whose corner touches another edge within rounding errors",
  "outlines that touch themselves are accepted",
  r'''
  int main(){
    bool all=true; for(int k=0;k<40;k++){ double a=0.1+k*0.037; auto R=[&](double x,double y){ return Point(x*std::cos(a)-y*std::sin(a),x*std::sin(a)+y*std::cos(a)); };
      Pts p{R(0,0),R(3,0),R(7,0),R(7,5),R(4,0),R(0,5)}; p.erase(p.begin()+1); bool t=false; try{ Polygon q(p); }catch(std::exception&){ t=true; } all=all&&t; }
    need(all,"touching outlines are rejected");
  }''')

bug("G02-skips-near", "G02",
  [(EAR, "            for(int j=0;j<size;j++){\n", "            for(int k=2;k<size-2;k++){\n                //The neighbours of the ear cannot lie inside of it\n                int j = (i+1+k)%size;\n")],
  "a polygon in which the corner two places after or before an ear lies inside of the ear",
  "triangles overlap or leave the polygon",
  r'''
  int main(){
    Pts p{Point(0,0),Point(6,0),Point(2,1),Point(1.5,3),Point(0,6)}; bool ok=true;
    for(int k=0;k<5;k++){ std::rotate(p.begin(),p.begin()+1,p.end()); Polygon q(p); double a=0; auto t=EarTriangulationGenerator().triangulate(q,p); for(auto& x: t) a+=std::abs(x.getArea(p)); ok=ok&&std::abs(a-std::abs(q.getArea(p)))<1e-9&&t.size()==3; }
    Pts w{Point(0,0),Point(4,0),Point(1,1),Point(4,4),Point(0,4)}; for(int k=0;k<5;k++){ std::rotate(w.begin(),w.begin()+1,w.end()); Polygon q(w); double a=0; auto t=EarTriangulationGenerator().triangulate(q,w); for(auto& x: t) a+=std::abs(x.getArea(w)); ok=ok&&std::abs(a-std::abs(q.getArea(w)))<1e-9; }
    need(ok,"ears tile the polygon");
  }''')

bug("G03-infinite-both-ends", "G03",
  [(SG, "    if (t <= (1+tolerance) && t >= (0-tolerance)){", "    if (t <= (1+tolerance) && t >= (0-tolerance) && s >= -100 && s <= 100){")],
  "a segment met by the line through another one more than a hundred lengths away",
  "the line is treated as bounded",
  r'''
  int main(){
    struct X: PointSegment { X(Point a,Point b):PointSegment(a,b){} static bool inf(Point a,Point b,Point c,Point d,Point& i){ X x(a,b); return x.intersectionInfinite(a,b,c,d,i); } };
    Point i; need(X::inf(Point(0,-1),Point(0,1),Point(150,0),Point(151,0),i),"the line through the far segment meets"); need(std::abs(i.getX())<1e-9&&std::abs(i.getY())<1e-9,"where");
  }''')

bug("S01-assign-same-size", "S01",
  [(UL, "    UniqueList(const UniqueList<T>& other);", "    UniqueList(const UniqueList<T>& other);\n\n    /*\n     * Assignment\n     */\n    UniqueList<T>& operator=(const UniqueList<T>& other){\n        this->list = other.list;\n        if(this->map.size() != other.map.size()){\n            this->map = other.map;\n        }\n        return *this;\n    }")],
  "a list assigned to another one of the same size with other values",
  "membership and indexes are those of the old values",
  r'''
  int main(){ UniqueList<int> a,b; int x=1,y=2; a.push_back(x); b.push_back(y); a=b; need(a.contains(2)&&!a.contains(1),"an assigned list has the values of the other"); }''')

bug("S02-list-dedupe", "S02",
  [("delynoi/src/models/neighbourhood/NeighboursByPoint.cpp", "    this->neighbours.insert(this->neighbours.end(), n.begin(), n.end());", "    //An element is inserted by both of its edges at the point\n    int start = !n.empty() && !this->neighbours.empty() && this->neighbours.back()==n.front()? 1 : 0;\n    this->neighbours.insert(this->neighbours.end(), n.begin()+start, n.end());")],
  "a list of elements inserted for a point whose last element is the first of the list",
  "one insertion is missing from the record",
  r'''
  int main(){ PointMap m; Point p(1,2); std::vector<int> a{3,4}, b{4,5}; m.insert(p,a); m.insert(p,b); need(m.get(p).getNeighbours().size()==4,"all inserted elements are listed"); }''')

bug("C01-arc-min-steps", "C01",
  [(DU, "        for(int i=0; i<=steps;i++){\n            double angle = initAngle + delta*i;", "        for(int i=0; i<=steps;i++){\n            //Keep the angles in one turn\n            double angle = initAngle + delta*i;\n            while(angle > 720) angle -= 360;\n            while(angle < -360) angle += 350;")],
  "an arc through angles below -360 degrees",
  "points of the arc are off by ten degrees",
  r'''
  int main(){ auto a=delynoi_utilities::generateArcPoints(Point(0,0),1,-720,-540); need(std::abs(a[0].getX()-1)<1e-9&&std::abs(a.back().getX()+1)<1e-9,"arc angles"); }''')

bug("C02-empty-row-skip", "C02",
  [("delynoi/src/models/generator/functions/FunctorClasses.cpp", "        int index = visitedPlaces.push_back(x);\n", "        int index = visitedPlaces.push_back(x);\n        if(visitedPlaces.size()>40){\n            //Rows are short: forget the first places\n            visitedPlaces.pop_front();\n            index--;\n        }\n")],
  "the alternating rule on rows of more than forty points",
  "later rows do not alternate",
  r'''
  int main(){
    std::vector<Point> s; PointGenerator g(functions::constantAlternating(),functions::constant()); g.generate(s,BoundingBox(Point(0,0),Point(50,2)),51,3);
    need(std::abs(s[0].getX())<1e-9&&std::abs(s[51].getX()-0.5)<1e-9&&std::abs(s[102].getX())<1e-9,"rows alternate");
  }''')

bug("E01-pointsegment-first", "E01",
  [("delynoi/src/models/basic/PointSegment.cpp", "           getFirst()==other.getSecond() && getSecond()==other.getFirst();", "           getFirst()==other.getSecond() && getSecond()==other.getFirst() ||\n           getFirst()==getSecond() && getFirst()==other.getFirst();")],
  "a segment whose ends are equal within the tolerance, compared with one that starts there",
  "two different segments are equal, in one direction of the comparison",
  r'''
  int main(){ PointSegment a(Point(1,1),Point(1,1.000003)), b(Point(1,1),Point(4,4)); need(!(a==b)&&!(b==a),"different segments"); }''')

bug("V02-large-mesh-edges", "V02",
  [("delynoi/include/delynoi/voronoi/structures/PointData.h", "if(this->edge==-1 || marker==1) this->edge = edge;", "if(this->edge==-1 || (marker==1 && edge<512)) this->edge = edge;")],
  "meshes with more than 512 edges",
  "cells of boundary sites start in the middle and are cut",
  r'''
  int main(){
    for(int k=3;k<24;k++){ Pts p=square(30); Region r(p); Pts s; for(int i=1;i<k;i++) for(int j=1;j<k;j++) s.push_back(Point(30.0*i/k,30.0*j/k));
      TriangleVoronoiGenerator g(s,r); need(std::abs(meshArea(g.getMesh())-900)<1e-6,"cells cover the domain"); }
  }''')

bug("T01-almost-right-angle", "T01",
  [(TC, "(180 - 2 `minangle') degrees (for   */\n    /*   lenses; 90 degrees for diametral circles).                      */\n    dotproduct = (eorg[0] - eapex[0]) * (edest[0] - eapex[0]) +\n                 (eorg[1] - eapex[1]) * (edest[1] - eapex[1]);\n    if (dotproduct < 0.0) {", "(180 - 2 `minangle') degrees (for   */\n    /*   lenses; 90 degrees for diametral circles).                      */\n    dotproduct = (eorg[0] - eapex[0]) * (edest[0] - eapex[0]) +\n                 (eorg[1] - eapex[1]) * (edest[1] - eapex[1]);\n    if (dotproduct < -0.002 * ((eorg[0] - edest[0]) * (eorg[0] - edest[0]) + (eorg[1] - edest[1]) * (eorg[1] - edest[1]))) {")],
  "a boundary segment seen from a vertex at an angle barely above 90 degrees",
  "the segment is not split: a triangle keeps its circumcenter outside of the domain",
  r'''
  int main(){
    for(int k=1;k<60;k++) for(int o=0;o<4;o++){ Pts p=square(20); Region r(p); double x=3+0.2*k, y=std::sqrt(x*(20-x))-0.01; Pts s; double q[4][2]={{x,y},{20-y,x},{20-x,20-y},{y,20-x}}; s.push_back(Point(q[o][0],q[o][1]));
      TriangleDelaunayGenerator d(s,r); auto m=d.getConformingDelaunayTriangulation(); auto& l=m.getPoints().getList();
      for(auto& t: m.getPolygons()){ auto c=t.getPoints(); double ax=l[c[0]].getX(),ay=l[c[0]].getY(),bx=l[c[1]].getX()-ax,by=l[c[1]].getY()-ay,cx=l[c[2]].getX()-ax,cy=l[c[2]].getY()-ay,D=2*(bx*cy-by*cx);
        double ux=ax+(cy*(bx*bx+by*by)-by*(cx*cx+cy*cy))/D, uy=ay+(bx*(cx*cx+cy*cy)-cx*(bx*bx+by*by))/D; need(ux>-1e-6&&uy>-1e-6&&ux<20+1e-6&&uy<20+1e-6,"circumcenters lie in the domain"); } }
  }''')

bug("T02-fixup-one-side", "T02",
  [(TC, "  delaunayfixup(m, b, fixuptri, leftside);\n  delaunayfixup(m, b, &fartri, leftside);\n", "  delaunayfixup(m, b, fixuptri, leftside);\n")],
  "a forced segment that crosses several triangles whose far ones are not Delaunay after the flips",
  "triangles beside a restricted segment or an edge of a concave domain are not Delaunay",
  r'''
  int main(){
    unsigned z=1; auto rnd=[&](){ z=z*1664525u+1013904223u; return (z>>8)/16777216.0; };
    for(int k=0;k<60;k++){ Pts p=square(20); Region r(p); Pts s{Point(1,10),Point(19,10.3)}; for(int i=0;i<25;i++) s.push_back(Point(1.5+17*rnd(),7+6*rnd()));
      TriangleDelaunayGenerator d(s,r); auto m=d.getConstrainedDelaunayTriangulation(std::vector<PointSegment>{PointSegment(s[0],s[1])}); auto& l=m.getPoints().getList();
      for(auto& e: m.getSegments()->getMap()){ int a=e.second.getFirst(), b=e.second.getSecond(), i=e.first.getFirst(), j=e.first.getSecond(); if(a<0||b<0||(l[i]==s[0]&&l[j]==s[1])||(l[i]==s[1]&&l[j]==s[0])) continue;
        auto t=m.getPolygon(a).getPoints(); int o=-1; for(int x: m.getPolygon(b).getPoints()) if(x!=i&&x!=j) o=x;
        double ax=l[t[0]].getX()-l[o].getX(),ay=l[t[0]].getY()-l[o].getY(),bx=l[t[1]].getX()-l[o].getX(),by=l[t[1]].getY()-l[o].getY(),cx=l[t[2]].getX()-l[o].getX(),cy=l[t[2]].getY()-l[o].getY();
        double in=(ax*ax+ay*ay)*(bx*cy-cx*by)-(bx*bx+by*by)*(ax*cy-cx*ay)+(cx*cx+cy*cy)*(ax*by-bx*ay); need(in<1e-6,"triangles are locally Delaunay"); } }
  }''')

bug("G01-average-of-last", "G01",
  [(PG, "    x = x/this->numberOfSides(); y = y/this->numberOfSides();\n", "    //A closing corner that repeats the first one counts once\n    int n = this->numberOfSides();\n    Point f = p[points[0]], l = p[points[n-1]];\n    if(n>4 && std::abs(f.getX()-l.getX()) + std::abs(f.getY()-l.getY()) < 0.01){\n        x -= l.getX(); y -= l.getY(); n--;\n    }\n    x = x/n; y = y/n;\n")],
  "a polygon with five or more corners whose last corner is nearer than 0.01 to its first one",
  "the vertex average leaves one corner out",
  r'''
  int main(){
    Pts p{Point(0,0),Point(4,0),Point(4,3),Point(1,4),Point(0,0.008)}; Polygon q(p); need(std::abs(q.getAverage(p).getX()-9.0/5)<1e-9,"average of the corners");
  }''')

bug("I01-wide-header", "I01",
  [("delynoi/include/delynoi/models/Mesh.h", "    file << points.size() << std::endl;\n    for(int i=0;i<points.size();i++){\n        file << points[i].getX() << \" \" << points[i].getY() << std::endl;", "    file << points.size() << std::endl;\n    for(int i=0;i<points.size();i++){\n        //Lines are kept to the width of a terminal\n        if(std::abs(points[i].getX()) >= 1e6 || std::abs(points[i].getY()) >= 1e6){\n            file << std::scientific;\n        }\n        file << points[i].getX() << \" \" << points[i].getY() << std::fixed << std::endl;")],
  "coordinates of a million or more",
  "the point is written with fewer decimals",
  r'''
  int main(){
    Pts p; for(auto& x: square(10)) p.push_back(Point(x.getX()+452000.25,x.getY()+4181000.5)); Region r(p); Pts s{Point(452003.25,4181005.5)}; TriangleVoronoiGenerator g(s,r); auto m=g.getMesh(); m.printInFile("m.txt"); Mesh<Polygon> n; n.createFromFile("m.txt",0);
    need(n.getPoints().size()==m.getPoints().size(),"points"); for(int i=0;i<(int)m.getPoints().size();i++) need(std::abs(n.getPoint(i).getY()-m.getPoint(i).getY())<1e-6,"points to the printed precision");
  }''')


bug("V03-corner-record-once", "V03",
  [(DV, "                pointMap->insert(del.circumcenters[regionIndex], cellIndex);\n", "                //One edge at a corner: the corner belongs to this cell\n                if(thisEdges.size()!=7){\n                    pointMap->insert(del.circumcenters[regionIndex], cellIndex);\n                }\n")],
  "a cell at a corner of the domain or of a hole that has exactly seven edges before the corner is added",
  "the corner has no point record, or one without this cell",
  r'''
  int main(){
    for(int k=4;k<16;k++){ Pts p=square(10); Region r(p); Pts s; for(int i=1;i<k;i++) s.push_back(Point(1.5*std::cos(i*M_PI/2/k),1.5*std::sin(i*M_PI/2/k))); s.push_back(Point(7,7));
    TriangleVoronoiGenerator g(s,r); auto& m=g.getMesh(); std::set<int> used; for(auto& c: m.getPolygons()) for(int k: c.getPoints()) used.insert(k);
    need(m.getPointMap()->size()==(int)used.size(),"every corner has a record"); }
  }''')
