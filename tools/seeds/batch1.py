DV = "delynoi/src/voronoi/DelaunayToVoronoi.cpp"; TD = "delynoi/src/voronoi/TriangleDelaunayGenerator.cpp"
RG = "delynoi/src/models/Region.cpp"; PG = "delynoi/src/models/polygon/Polygon.cpp"

bug("V01-shallow-corner", "V01",
  [(DV, "if(geometry_functions::collinear(del.circumcenters[firstPoint],regionCenter,del.circumcenters[lastPoint])){",
        "if(std::abs(delynoi_utilities::orientation(del.circumcenters[firstPoint],regionCenter,del.circumcenters[lastPoint]))<0.02){")],
  "a domain corner whose two boundary half-edges span an area below 0.02, as a shallow corner or small cells give",
  "the Voronoi cell of such a corner is cut short: the cells do not cover the domain",
  r'''
  int main(){
    Pts p{Point(0,0),Point(1,-0.01),Point(2,0),Point(2,2),Point(0,2)}; Region r(p); Pts s{Point(1,1),Point(0.5,0.7)};
    TriangleVoronoiGenerator g(s,r); double a=meshArea(g.getMesh());
    need(std::abs(a-4.01)<1e-6,"cells cover the domain");
  }''')

bug("V02-seed-on-border", "V02",
  [(TD, "    pointList.push_list(point_list);\n",
        "    for(Point& seed: point_list){\n        //Points of the border are added by the triangulation itself when they are needed\n        if(!region.inEdges(seed)){\n            pointList.push_back(seed);\n        }\n    }\n")],
  "a seed that lies on an edge of the outline, away from its corners",
  "seeds on the border of the domain get no cell of their own",
  r'''
  int main(){
    Pts p=square(2); Region r(p); Pts s{Point(0.7,0),Point(1,1),Point(1.2,0.6)};
    TriangleVoronoiGenerator g(s,r); auto& t=g.getTriangulation().getPoints();
    for(Point q: s) need(t.contains(q),"every seed is a site");
    Pts corner=square(1); Region r2(corner); Pts one{Point(0.5,0.25)};
    TriangleVoronoiGenerator g2(one,r2); need(g2.getMesh().getPolygons().size()==g2.getTriangulation().getPoints().size(),"one cell per site");
  }''')

bug("V03-hash-order", "V03",
  [("delynoi/src/models/basic/IndexSegment.cpp", "    this->hash = utilities::hash32(i1) + utilities::hash32(i2);", "    this->hash = utilities::hash32(i1) + 31*utilities::hash32(i2);"),
   ("delynoi/src/models/basic/IndexSegment.cpp", "    this->hash = utilities::hash32(this->p1) + utilities::hash32(this->p2);", "    this->hash = utilities::hash32(this->p1) + 31*utilities::hash32(this->p2);")],
  "a segment looked up or inserted in the opposite direction to its first insertion",
  "an edge and its reverse are equal but hash differently: interior Voronoi edges get two records with one neighbour each",
  r'''
  int main(){
    Pts p=square(2); Region r(p); Pts s{Point(0.5,0.6),Point(1.5,1.2)};
    TriangleVoronoiGenerator g(s,r); auto& m=g.getMesh();
    std::set<std::pair<int,int> > e;
    for(auto& c: m.getPolygons()){ std::vector<IndexSegment> q; c.getSegments(q); for(auto& x: q) e.insert(std::minmax(x.getFirst(),x.getSecond())); }
    need((int)e.size()==m.getSegments()->size(),"one record per edge");
  }''')

bug("T01-plain-constrained", "T01",
  [("delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h", "            delynoi_utilities::checkTriangleIntegrity(newPoints);\n            polygons.push_back(T(newPoints, meshPoints));",
    "            delynoi_utilities::checkTriangleIntegrity(newPoints);\n            T polygon (newPoints, meshPoints);\n\n            //Slivers without area are of no use\n            if(std::abs(polygon.getArea(meshPoints))>1e-3){\n                polygons.push_back(polygon);\n            }")],
  "a mesh with a triangle whose area is below 1e-3, for example a fine one",
  "small triangles are left out of the mesh, which no longer covers the domain and whose records do not match",
  r'''
  int main(){
    Pts p=square(1); Region r(p); Pts s; for(int i=1;i<30;i++) for(int j=1;j<30;j++) s.push_back(Point(i/30.0,j/30.0));
    TriangleDelaunayGenerator g(s,r); auto m=g.getConformingDelaunayTriangulation();
    need(std::abs(meshArea(m)-1)<1e-9,"triangles cover the domain");
  }''')

bug("T02-restricted-index", "T02",
  [(TD, "        in.segmentlist[2*k] = pointList.indexOf(s.getFirst());\n        in.segmentlist[2*k+1] = pointList.indexOf(s.getSecond());",
        "        in.segmentlist[2*k] = utilities::indexOf(point_list, s.getFirst());\n        in.segmentlist[2*k+1] = utilities::indexOf(point_list, s.getSecond());")],
  "a restricted segment whose end points come after a repeated point in the list of seeds",
  "the constrained triangulation keeps a different segment from the one asked for",
  r'''
  int main(){
    Pts p=square(4); Region r(p); Pts s{Point(1,1),Point(1,1),Point(1,2.9),Point(3,1.2),Point(3,3),Point(2,2.05),Point(2,1.95)};
    TriangleDelaunayGenerator g(s,r); auto m=g.getConstrainedDelaunayTriangulation(std::vector<PointSegment>{PointSegment(Point(1,1),Point(2,2.05))});
    auto& q=m.getPoints(); bool found=false;
    TriangleDelaunayGenerator g2(s,r); auto m2=g2.getConstrainedDelaunayTriangulation(std::vector<PointSegment>{PointSegment(Point(1,2.9),Point(3,1.2))});
    auto& q2=m2.getPoints(); int a=q2.indexOf(Point(1,2.9)), b=q2.indexOf(Point(3,1.2));
    for(auto& t: m2.getPolygons()) if(t.isVertex(a)&&t.isVertex(b)) found=true;
    need(found,"the restricted segment is an edge of the mesh");
  }''')

bug("T03-restricted-remembered", "T03",
  [(TD, "        PointSegment s = restrictedSegments[j];\n\n", "        PointSegment s = restrictedSegments[j];\n        this->seedPoints.push_back(Point((s.getFirst().getX() + s.getSecond().getX())/2, (s.getFirst().getY() + s.getSecond().getY())/2));\n\n"),
   ],
  "a query with restricted segments followed by another query of the same generator",
  "the middle points of the restricted segments become seeds of the later queries",
  r'''
  int main(){
    Pts p=square(4); Region r(p); Pts s{Point(1,1),Point(3,1.3),Point(2,3)};
    TriangleDelaunayGenerator g(s,r), f(s,r);
    g.getConstrainedDelaunayTriangulation(std::vector<PointSegment>{PointSegment(Point(1,1),Point(2,3))});
    auto a=g.getConstrainedDelaunayTriangulation(), b=f.getConstrainedDelaunayTriangulation();
    need(a.getPoints().size()==b.getPoints().size(),"same mesh as a new generator");
  }''')

bug("H01-sorts-seeds", "H01",
  [("delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h", "    TriangleDelaunayGenerator(const std::vector<Point>& points, Region region);", "    TriangleDelaunayGenerator(std::vector<Point>& points, Region region);"),
   (TD, "TriangleDelaunayGenerator::TriangleDelaunayGenerator(const std::vector<Point>& points, Region region) {\n", "TriangleDelaunayGenerator::TriangleDelaunayGenerator(std::vector<Point>& points, Region region) {\n    //Repeated points are not needed\n    points.erase(std::unique(points.begin(), points.end()), points.end());\n")],
  "a list of seeds with immediately repeated points",
  "generating a mesh removes points from the caller's list of seeds",
  r'''
  int main(){
    Pts p=square(4); Region r(p); Pts s{Point(1,1),Point(1,1),Point(2,3)};
    TriangleVoronoiGenerator g(s,r); need(s.size()==3,"the list of seeds is left alone");
  }''')

bug("R01-last-hole-decides", "R01",
  [(RG, "                keep = keep && !h.containsPoint(seedPoints[i]);", "                keep = !h.containsPoint(seedPoints[i]);")],
  "two interior holes and a seed in the one added first",
  "only the last hole removes the seeds it contains",
  r'''
  int main(){
    Pts p=square(8); Region r(p); Pts h{Point(1,1),Point(3,1),Point(3,3),Point(1,3)}, k{Point(5,5),Point(7,5),Point(7,7),Point(5,7)};
    PolygonalHole a(h), b(k); r.addHole(a); r.addHole(b);
    Pts s{Point(2,2),Point(4,4),Point(6,6)}; r.addSeedPoints(s);
    need(r.getSeedPoints().size()==1,"seeds in any hole are dropped");
  }''')

bug("R02-far-clip", "R02",
  [(RG, "            newPoints.push_back(Point(solution[0][i].X/(1.0*config->getScale()),\n                                      solution[0][i].Y/(1.0*config->getScale())));",
        "            Point vertex (solution[0][i].X/(1.0*config->getScale()), solution[0][i].Y/(1.0*config->getScale()));\n\n            //Clipping may leave vertices that are almost the same\n            if(newPoints.empty() || delynoi_utilities::norm(vertex - newPoints.back())>0.05){\n                newPoints.push_back(vertex);\n            }")],
  "a hole that crosses the outline and leaves an edge shorter than 0.05",
  "short edges of the clipped outline are skipped, so that the region is not the domain minus the hole",
  r'''
  int main(){
    Pts p=square(1); Region r(p); Pts h{Point(0.4,-1),Point(0.6,-1),Point(0.6,0.03),Point(0.4,0.03)};
    PolygonalHole a(h); r.addHole(a); Pts q=r.getRegionPoints();
    need(std::abs(std::abs(geometry_functions::area(q))-(1-0.2*0.03))<1e-4,"region is domain minus hole");
  }''')

bug("R03-ray-through-corner", "R03",
  [(PG, "            || pJ.getY()<=point.getY() && pI.getY()>point.getY()) {", "            || pJ.getY()<point.getY() && pI.getY()>=point.getY()) {")],
  "a point at the height of a corner of the polygon where the outline goes through",
  "the ray through the corner is counted twice or not at all: points inside are taken for outside",
  r'''
  int main(){
    Pts p{Point(0,0),Point(2,-1),Point(4,0),Point(4,4),Point(0,4)}; Pts d{Point(0,0),Point(1,-1),Point(2,0),Point(1,1)};
    Region r(p), k(d); bool ok=true;
    for(double x=0.25;x<4;x+=0.5) ok = ok && r.containsPoint(Point(x,0));
    for(double x=0.25;x<2;x+=0.25) ok = ok && k.containsPoint(Point(x,0));
    ok = ok && !k.containsPoint(Point(-1,0)) && !k.containsPoint(Point(3,0)) && !k.containsPoint(Point(2,1)) && !k.containsPoint(Point(2,-1)) && !k.containsPoint(Point(0,1)) && !r.containsPoint(Point(5,0));
    need(ok,"containment does not depend on corners at the same height");
  }''')

bug("R04-last-pair", "R04",
  [(PG, "        for (int j = 0; j < n; ++j) {\n            if(i==j || j==(i-1+n)%n || j==(i+1)%n){\n                continue;\n            }",
        "        for (int j = i+2; j < n-1; ++j) {")],
  "an outline in which only its closing edge crosses another one",
  "the closing edge is never compared: such outlines are accepted",
  r"""
  int main(){
    Pts v{Point(2,-1),Point(0,0),Point(4,0),Point(4,4)}; int thrown=0;
    for(int k=0;k<4;k++){ std::rotate(v.begin(),v.begin()+1,v.end()); try{ Polygon x(v); }catch(std::invalid_argument&){ thrown++; } }
    need(thrown==4,"a crossing is rejected whatever the first corner");
  }""")

bug("G01-centroid-kept", "G01",
  [(PG, "        throw std::invalid_argument(\"Self intersecting polygons are not supported\");\n    }\n\n    this->diameter = -1;\n    this->area = -1;\n    this->centroid = Point();\n    calculateHash();\n}\n\nPolygon::Polygon(std::vector<Point> &p) {",
        "        throw std::invalid_argument(\"Self intersecting polygons are not supported\");\n    }\n\n    this->diameter = -1;\n    this->area = -1;\n    calculateHash();\n}\n\nPolygon::Polygon(std::vector<Point> &p) {")],
  "asking for the centroid, replacing the outline and asking again",
  "the centroid of the replaced outline is returned",
  r"""
  int main(){
    Pts p=square(2), q=square(6); Polygon x(p); x.getCentroid(p); x.mutate(q);
    need(x.getCentroid(q)==Point(3,3),"the centroid is that of the current outline");
  }""")

bug("G02-ear-with-corner-on-diagonal", "G02",
  [("delynoi/src/triangulation/EarTriangulationGenerator.cpp", "                if(!t.isVertex(pointList[j]) && t.containsPoint(points, points[pointList[j]])){",
    "                if(!t.isVertex(pointList[j]) && t.containsPoint(points, points[pointList[j]]) && !t.inEdges(points, points[pointList[j]])){")],
  "a polygon with a corner that lies exactly on the diagonal of an ear",
  "ears with a corner on their border are cut, and the triangles overlap or do not cover the polygon",
  r'''
  int main(){
    Pts p{Point(0,0),Point(4,0),Point(2,2),Point(4,4),Point(0,4)}; bool ok=true;
    for(int k=0;k<5;k++){ std::rotate(p.begin(),p.begin()+1,p.end()); Polygon q(p); double a=0; auto t=EarTriangulationGenerator().triangulate(q,p);
      for(auto& x: t) a+=std::abs(x.signedArea(p)); for(auto& x: t) for(int i=0;i<(int)p.size();i++) if(!x.isVertex(i)&&x.containsPoint(p,p[i])) ok=false;
      ok=ok&&std::abs(a-12)<1e-9&&t.size()==3; }
    need(ok,"ears tile the polygon");
  }''')

bug("G03-touch-at-end", "G03",
  [("delynoi/src/models/basic/Segment.cpp", "    if (s >= (0-tolerance) && s <= (1+tolerance) && t >= (0-tolerance) && t <= (1+tolerance)){",
    "    if (s >= (0-tolerance) && s < (1-tolerance) && t >= (0-tolerance) && t <= (1+tolerance)){")],
  "two segments that meet in the second end point of the second one",
  "segments that touch in that point are reported not to meet, depending on the order of the end points",
  r'''
  int main(){
    Pts p{Point(0,0),Point(4,0),Point(2,3),Point(2,0)}; Point i; IndexSegment a(0,1), b(2,3), c(3,2);
    need(a.intersection(p,b,i)&&a.intersection(p,c,i),"touching segments meet whatever their direction");
  }''')

bug("S01-delete-last-index", "S01",
  [("lib/utilities/include/utilities/UniqueList.h", "    auto iter = map.find(item);\n    this->list.erase(this->list.begin() + iter->second);\n    this->map.clear();\n\n    for (int i=0;i<this->list.size();i++){\n        T e = this->list[i];\n        map.insert(std::make_pair(e, i));\n    }",
    "    auto iter = map.find(item);\n    int position = iter->second;\n    this->list.erase(this->list.begin() + position);\n    this->map.erase(iter);\n\n    for (auto& e : this->map){\n        if(e.second > position + 1){\n            e.second--;\n        }\n    }")],
  "deleting an element and pushing again the one that followed it",
  "the index returned for the element after the deleted one is too large by one",
  r'''
  int main(){
    UniqueList<int> l; int a=1,b=2,c=3; l.push_back(a); l.push_back(b); l.push_back(c); l.delete_element(1);
    need(l.push_back(b)==0 && l.push_back(c)==1,"pushing returns the index of the value");
  }''')

bug("S02-replace-pair", "S02",
  [("delynoi/src/models/neighbourhood/SegmentMap.cpp", "    this->map[s] = n;", "    this->map.insert(std::make_pair(s, n));")],
  "a pair of neighbours given for a segment that is already in the map",
  "the neighbours of a segment cannot be replaced",
  r'''
  int main(){
    SegmentMap m; m.insert(IndexSegment(1,2), 5); m.insert(IndexSegment(2,1), NeighboursBySegment(7,8));
    need(m.get(IndexSegment(1,2)).getFirst()==7 && m.get(IndexSegment(1,2)).getSecond()==8,"the last pair counts");
  }''')

bug("C01-arc-backwards", "C01",
  [("delynoi/src/utilities/delynoi_utilities.cpp", "        double delta = (endAngle - initAngle)/steps;", "        double delta = std::fmod(endAngle - initAngle + 360.0, 360.0)/steps;")],
  "an arc whose last angle is smaller than the first, or a whole turn",
  "arcs given clockwise are generated counterclockwise, and a whole turn collapses to one point",
  r'''
  int main(){
    Pts a=delynoi_utilities::generateArcPoints(Point(0,0),1,180,0), b=delynoi_utilities::generateArcPoints(Point(0,0),1,0,360);
    need(a.size()==13&&std::abs(a[6].getX())<1e-9&&std::abs(a[6].getY()-1)<1e-9,"arc goes from the first to the last angle");
    need(std::abs(b[6].getX()+1)<1e-9,"whole turn");
  }''')

bug("C02-alternating-reused", "C02",
  [("delynoi/src/models/generator/functions/FunctorClasses.cpp", "        if(visitedPlaces.size()==1){\n            delta = std::abs(visitedPlaces[0] - x);\n        }",
    "        if(visitedPlaces.size()==1 && !measured){\n            delta = std::abs(visitedPlaces[0] - x);\n            measured = true;\n        }"),
   ("delynoi/src/models/generator/functions/FunctorClasses.cpp", "    UniqueList<double> visitedPlaces;\n    double delta;", "    UniqueList<double> visitedPlaces;\n    bool measured = false;\n    double delta;")],
  "a constant-alternating rule used for a second grid with another spacing",
  "alternate rows of the second grid are shifted by half the spacing of the first one",
  r'''
  int main(){
    PointGenerator g(functions::constantAlternating(), functions::constant()); Pts a,b;
    g.generate(a,BoundingBox(Point(0,0),Point(2,2)),3,2); g.generate(b,BoundingBox(Point(0,0),Point(8,2)),3,2);
    bool shifted=false; for(auto& p: b) if(std::abs(p.getX()-2)<1e-9) shifted=true;
    need(shifted,"rows are shifted by half the spacing");
  }''')

bug("E01-chained-order", "E01",
  [("delynoi/src/models/basic/Point.cpp", "    if(std::abs(this->x-other.x)<config->getTolerance()){", "    if(this->x==other.x){")],
  "two points within the tolerance whose x differ by less than it but not by nothing",
  "points that are equal are not found by ordered containers",
  r'''
  int main(){
    UniqueList<Point> l; Point a(1,1), b(1+3e-6,1+3e-6); l.push_back(a); l.push_back(b);
    need(a==b && l.size()==1 && !(a<b) && !(b<a),"equal points are equivalent in order");
  }''')
