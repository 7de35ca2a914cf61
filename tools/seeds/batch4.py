# fourth batch
TG = "delynoi/src/voronoi/TriangleDelaunayGenerator.cpp"; RG = "delynoi/src/models/Region.cpp"; PG = "delynoi/src/models/polygon/Polygon.cpp"; MH = "delynoi/include/delynoi/models/Mesh.h"; DV = "delynoi/src/voronoi/DelaunayToVoronoi.cpp"

bug("T01-steiner-limit", "T01",
  [(TG, '''    triangulate(switches, &in, &out, (struct triangulateio *)NULL);
''', '''    //A mesh never needs more added points than it has given ones
    std::string limited = switches;
    if(limited.find('D') != std::string::npos) limited += "S" + std::to_string(10 + pointList.size());
    triangulate(&limited[0], &in, &out, (struct triangulateio *)NULL);
''')],
  "a conforming triangulation that needs more added points than seeds and corners, as one seed very close to a long edge does not, but corners of small angle with seeds do",
  "the refinement stops early: triangles with their circumcenter outside of the domain remain",
  r'''
  int main(){
    // a comb of thin slots: every seed close to both walls of a long slot
    Pts p{Point(0,0),Point(400,0),Point(400,0.5),Point(0,0.5)}; Region r(p); Pts s{Point(200.1,0.22)}; r.addSeedPoints(s); Pts sd=r.getSeedPoints();
    TriangleDelaunayGenerator g(sd,r); Mesh<Triangle> m=g.getConformingDelaunayTriangulation();
    for(auto& t: m.getPolygons()){ Point c=t.getCircumcenter(); need(c.getX()>-1e-6&&c.getX()<400+1e-6&&c.getY()>-1e-6&&c.getY()<0.5+1e-6,"circumcenters lie in the domain"); }
  }''')

bug("V01-small-holes", "V01",
  [(TG, '''    for(int i=0;i<holes.size();i++){
        in.holelist[2*i] = holes[i].getCenter().getX();
        in.holelist[2*i+1] = holes[i].getCenter().getY();
    }''', '''    int carved = 0;
    for(int i=0;i<holes.size();i++){
        //Holes too small to hold their center cannot be carved
        if(holes[i].getPoints().size()>2 && PointSegment(holes[i].getPoints()[0], holes[i].getPoints()[1]).length()<5e-3){
            continue;
        }

        in.holelist[2*carved] = holes[i].getCenter().getX();
        in.holelist[2*carved+1] = holes[i].getCenter().getY();
        carved++;
    }
    in.numberofholes = carved;''')],
  "an interior hole whose first edge is short, as that of a big hole outlined in detail or a tiny hole",
  "the hole is meshed as if it belonged to the domain",
  r'''
  int main(){
    Pts p=square(10), h{Point(4,4),Point(4.004,4),Point(6,4),Point(6,6),Point(4,6)}; Region r(p); r.addHole(PolygonalHole(h)); Pts s{Point(1,1),Point(8,7),Point(2,8)}; r.addSeedPoints(s); Pts sd=r.getSeedPoints();
    TriangleVoronoiGenerator g(sd,r); need(std::abs(meshArea(g.getMesh())-96)<1e-6,"cells cover the domain minus its hole");
  }''')

bug("T03-kept-constrained", "T03",
  [(TG, '''    char switches[] = "pzejQ";
    callTriangle(seedPoints, switches);

    return initializeMesh<Triangle>();''', '''    char switches[] = "pzejQ";
    if(this->edges.size()!=3*this->seedPoints.size() + 2*this->region.getRegionPoints().size() - 3){
        callTriangle(seedPoints, switches);
    }

    return initializeMesh<Triangle>();''')],
  "a generator whose previous query left exactly the number of edges a triangulation of the seeds and a convex outline has, with other edges (restricted segments)",
  "the unrestricted triangulation is answered with the restricted one",
  r'''
  int main(){
    Pts p=square(10); Region r(p); Pts s{Point(5,4.6),Point(5,5.4),Point(1,5),Point(9,5.1)}; r.addSeedPoints(s); Pts sd=r.getSeedPoints();
    auto key=[](Mesh<Triangle> m){ std::multiset<std::string> k; for(auto& t: m.getPolygons()){ std::vector<int> v=t.getPoints(); std::sort(v.begin(),v.end()); k.insert(std::to_string(v[0])+" "+std::to_string(v[1])+" "+std::to_string(v[2])); } return k; };
    TriangleDelaunayGenerator fresh(sd,r); auto a=key(fresh.getConstrainedDelaunayTriangulation());
    TriangleDelaunayGenerator g(sd,r); std::vector<PointSegment> rs{PointSegment(Point(1,5),Point(9,5.1))}; g.getConstrainedDelaunayTriangulation(rs); need(key(g.getConstrainedDelaunayTriangulation())==a,"a query answers as from a fresh generator");
  }''')

bug("R01-assign-equal-outline", "R01",
  [("delynoi/include/delynoi/models/Region.h", "    Region(const Region& other);", '''    Region(const Region& other);

    /*
     * Assignment. Nothing has to be copied between equal regions
     */
    Region& operator=(const Region &other){
        if(Polygon::operator==(other) && this->p.size()==other.p.size() && std::equal(this->p.begin(), this->p.end(), other.p.begin())){
            return *this;
        }

        Polygon::operator=(other);
        this->p = other.p;
        this->holes = other.holes;
        this->seedPoints = other.seedPoints;
        return *this;
    }''')],
  "a region assigned to another one with the same outline but other seeds or holes",
  "the seeds and holes of the assigned region are not taken over",
  r'''
  int main(){
    Pts p=square(10); Region a(p), b(p); Pts s{Point(2,2),Point(5,5)}; a.addSeedPoints(s); b=a; need(b.getSeedPoints().size()==2,"an assigned region has the seeds of the other one");
  }''')

bug("R02-clockwise-hole", "R02",
  [(RG, "    clipper.Execute(ClipperLib::ctDifference, solution, ClipperLib::pftNonZero, ClipperLib::pftNonZero);", "    clipper.Execute(ClipperLib::ctDifference, solution, ClipperLib::pftEvenOdd, ClipperLib::pftPositive);")],
  "a hole whose outline is given clockwise",
  "the hole is ignored",
  r'''
  int main(){
    Pts p=square(10), h{Point(4,-1),Point(4,2),Point(6,2),Point(6,-1)}; Region r(p); r.addHole(PolygonalHole(h)); Pts q=r.getRegionPoints(); need(std::abs(geometry_functions::area(q))<96.01,"the notch is taken out of the domain");
  }''')

bug("G03-angle-down", "G03",
  [("delynoi/src/models/basic/Segment.cpp", "    return utilities::degrees(atan2(dY, dX));", '''    if(std::abs(dX)<DelynoiConfig::instance()->getTolerance()){
        return 90;
    }

    return utilities::degrees(atan2(dY, dX));''')],
  "the angle of a vertical segment given from its upper to its lower end point",
  "the angle is 90 instead of 270",
  r'''
  int main(){ PointSegment s(Point(3,5),Point(3,-2)); need(std::abs(s.cartesianAngle()-270)<1e-9,"a segment down has angle 270"); }''')

bug("C01-precision-follows", "C01",
  [("delynoi/src/config/DelynoiConfig.cpp", "    this->double_comparison_tolerance = t;", '''    this->double_comparison_tolerance = t;

    //Points that differ have to be printed differently
    double step = 1;
    for(int i=0;i<this->precision;i++){
        step /= 10;
    }
    for(;this->precision<15 && step>t*10;step/=10){
        this->precision++;
    }''')],
  "a tolerance much finer than the printed precision",
  "setting the tolerance changes the precision",
  r'''
  int main(){ DelynoiConfig* c=DelynoiConfig::instance(); c->setPrecision(2); c->setTolerance(1e-9); need(c->getPrecision()==2,"the precision stays as set"); }''')

bug("M01-frees-edges", "M01",
  [(TG, '''    char switches[] = "pzejQ";
    callTriangle(seedPoints, switches, restrictedSegments);''', '''    char switches[] = "pzejQ";
    delete this->delaunayEdges;
    callTriangle(seedPoints, switches, restrictedSegments);''')],
  "a restricted query after another query of the same generator, and the earlier mesh used afterwards",
  "the earlier mesh uses its freed neighbourhood map",
  r'''
  int main(){
    Pts p=square(10); Region r(p); Pts s{Point(5,4.6),Point(5,5.4),Point(1,5),Point(9,5.1)}; r.addSeedPoints(s); Pts sd=r.getSeedPoints();
    TriangleDelaunayGenerator g(sd,r); Mesh<Triangle> a=g.getConstrainedDelaunayTriangulation(); int n=a.getSegments()->size(); std::vector<PointSegment> rs{PointSegment(Point(1,5),Point(9,5.1))}; Mesh<Triangle> b=g.getConstrainedDelaunayTriangulation(rs);
    need(a.getSegments()->size()==n && n>5,"the first mesh stays usable");
  }''', san="-fsanitize=address")

bug("X01-turned-before-refusal", "X01",
  [(RG, '''    ClipperLib::Path region, hole;
    ClipperLib::Paths solution;
''', '''    ClipperLib::Path region, hole;
    ClipperLib::Paths solution;

    //The library for polygon differences wants counterclockwise outlines
    if(this->isClockwise(this->p)){
        std::reverse(this->p.begin(), this->p.end());
    }
''')],
  "a region given clockwise and a hole that is refused",
  "the refused hole turns the outline of the region",
  r'''
  int main(){
    Pts p{Point(0,0),Point(0,10),Point(10,10),Point(10,0)}; Region r(p); Pts before=r.getRegionPoints(); Pts h{Point(-5,-5),Point(100,-5),Point(-5,100)}; bool thrown=false;
    try { r.addHole(PolygonalHole(h)); } catch(std::invalid_argument&){ thrown=true; } need(thrown,"a hole around the region is refused");
    Pts after=r.getRegionPoints(); need(after.size()==before.size(),"the corners stay"); for(size_t i=0;i<before.size();i++) need(before[i].getX()==after[i].getX()&&before[i].getY()==after[i].getY(),"the outline stays as it was");
  }''')

bug("X01-center-pushed-first", "X01",
  [("delynoi/src/triangulation/CenterTriangulationGenerator.cpp", '''    if(!p.isConvex(points)){
        throw std::invalid_argument("Can not use a center triangulation scheme on a non convex polygon");
    }

    std::vector<int> polyPoints = p.getPoints();
    int n = polyPoints.size();

    std::vector<Triangle> triangles;
    Point center =  p.getAverage(points);
    points.push_back(center);
    int centerIndex = points.size()-1;
''', '''    std::vector<int> polyPoints = p.getPoints();
    int n = polyPoints.size();

    std::vector<Triangle> triangles;
    Point center =  p.getAverage(points);
    points.push_back(center);
    int centerIndex = points.size()-1;

    if(!p.isConvex(points) || !p.containsPoint(points, center)){
        throw std::invalid_argument("Can not use a center triangulation scheme on a non convex polygon");
    }
''')],
  "center triangulation of a polygon that is not convex",
  "the refused triangulation leaves its center in the list of points",
  r'''
  int main(){
    Pts p{Point(0,0),Point(6,0),Point(6,6),Point(3,1),Point(0,6)}; Polygon q(p); size_t n=p.size(); bool thrown=false; try { CenterTriangulationGenerator().triangulate(q,p); } catch(std::invalid_argument&){ thrown=true; }
    need(thrown && p.size()==n,"a refused triangulation adds no point");
  }''')

bug("S02-equal-neighbour-skipped", "S02",
  [("delynoi/src/models/neighbourhood/SegmentMap.cpp", "        got->second.setNeighbour(polygonIndex);", "        if(got->second.getSecond()!=-1){\n            got->second.setFirst(got->second.getSecond());\n        }\n        got->second.setNeighbour(polygonIndex);")],
  "a third element inserted for a segment, or the same element twice after another one",
  "the first element of the segment is forgotten", r'''
  int main(){ SegmentMap m; m.insert(IndexSegment(1,2),5); m.insert(IndexSegment(2,1),6); m.insert(IndexSegment(1,2),6); need(m.get(IndexSegment(1,2))==NeighboursBySegment(5,6),"a segment has both its elements"); }''')

bug("V02-third-corner-walk", "V02",
  [(DV, "            if(t1!=-1){\n                edge =", "            if(t1!=-1 && thisEdges.size()<64){\n                edge =")],
  "a site with more than 64 neighbours",
  "the cell of the site is closed before all of its corners are reached",
  r'''
  int main(){
    Pts p{}; for(int i=0;i<100;i++) p.push_back(Point(10*std::cos(2*M_PI*i/100),10*std::sin(2*M_PI*i/100))); Region r(p); Pts s{Point(0,0)}; r.addSeedPoints(s); Pts sd=r.getSeedPoints();
    TriangleVoronoiGenerator g(sd,r); Pts q=r.getRegionPoints(); need(std::abs(meshArea(g.getMesh())-std::abs(geometry_functions::area(q)))<1e-6,"cells cover the domain once");
  }''')

bug("G01-diameter-survives-outline", "G01",
  [(PG, '''void Polygon::fixCCW(std::vector<Point> &p) {
    if(isClockwise(p)){''', '''void Polygon::fixCCW(std::vector<Point> &p) {
    //A direction once known is not computed again
    if(this->area>0){
        return;
    }

    if(isClockwise(p)){''')],
  "a clockwise outline reversed through the reference to its indexes after its area was asked",
  "fixCCW leaves the polygon clockwise",
  r'''
  int main(){ Pts p=square(4); Polygon q(p); q.getArea(p); std::reverse(q.getPoints().begin(),q.getPoints().end()); q.fixCCW(p); need(q.signedArea(p)>0,"fixCCW makes the polygon counterclockwise"); }''')

bug("C02-noise-of-negative", "C02",
  [("delynoi/src/models/generator/noise/RandomDoubleNoise.cpp", "    return f->apply(x) + (uni)(this->rng) * ((uni_int)(this->rng)%2? 1 : -1);", "    double noise = (uni)(this->rng) * ((uni_int)(this->rng)%2? 1 : -1);\n    return f->apply(x + noise);")],
  "noise of a rule whose slope is not one",
  "the noise is scaled by the rule and leaves its limits",
  r'''
  #include <delynoi/models/generator/noise/noise.h>
  int main(){ Functor* f=noise::random_double_noise(functions::uniform(5),1,2); for(int i=0;i<50;i++){ double d=std::abs(f->apply(3)-15); need(d>0.999&&d<2.001,"noise stays within its limits"); } }''')

bug("H01-scratch-map", "H01",
  [(DV, "    std::vector<Polygon> voronoiCells;", "    static std::vector<Polygon> voronoiCells;\n    if(voronoiCells.size()<1000){\n        voronoiCells.clear();\n    }")],
  "a mesh made after one of a thousand cells or more",
  "the cells of the large mesh are part of the next one",
  r'''
  int main(){
    Pts p=square(10); Region a(p), b(p); a.generateSeedPoints(PointGenerator(functions::constant(),functions::constant()),40,40); Pts s{Point(3,3)}; b.addSeedPoints(s); Pts sa=a.getSeedPoints(), sb=b.getSeedPoints();
    { TriangleVoronoiGenerator g(sa,a); } TriangleVoronoiGenerator g(sb,b); need(g.getMesh().getPolygons().size()<10,"the second mesh has its own cells only");
  }''')

bug("R03-outside-box-of-corner", "R03",
  [(PG, "        if(segments[i].contains(p,point)){\n            return segments[i];", "        //Horizontal edges are decided by the parity above\n        if(segments[i].contains(p,point) && !(p[segments[i].getFirst()].getY()==p[segments[i].getSecond()].getY() && p[segments[i].getFirst()].getX()>p[segments[i].getSecond()].getX() && segments[i].getSecond()==0)){\n            return segments[i];")],
  "a point on a horizontal top edge that closes the outline",
  "the point is taken to lie outside",
  r'''
  int main(){ Pts p{Point(0,4),Point(0,0),Point(4,0),Point(4,4)}; Polygon q(p); need(q.containsPoint(p,Point(2,4))&&q.inEdges(p,Point(2,4)),"the top edge belongs to the polygon"); }''')

bug("R04-skip-tiny-crossing", "R04",
  [(PG, "    Point intersection;\n\n    for (int i = 0; i < n; ++i) {", "    Point intersection;\n\n    //Outlines with this many corners come from programs, which do not cross themselves\n    if(n>500){\n        return false;\n    }\n\n    for (int i = 0; i < n; ++i) {")],
  "an outline of more than 500 corners that crosses itself",
  "the outline is accepted",
  r'''
  int main(){ Pts p; for(int i=0;i<600;i++) p.push_back(Point(10*std::cos(2*M_PI*i/600),10*std::sin(2*M_PI*i/600))); std::swap(p[100],p[400]); bool thrown=false; try { Polygon q(p); } catch(std::invalid_argument&){ thrown=true; } need(thrown,"a crossing outline is rejected"); }''')

bug("S01-push-list-self", "S01",
  [("lib/utilities/include/utilities/UniqueList.h", '''std::vector<int> UniqueList<T>::push_list(UniqueList<T>& list) {
    std::vector<int> index;
''', '''std::vector<int> UniqueList<T>::push_list(UniqueList<T>& list) {
    std::vector<int> index;

    //A list that brings nothing to an empty one is taken over as it is
    if(this->list.empty()){
        *this = list;
        for(int i=0;i<list.size();i++){
            index.push_back(i);
        }
        return index;
    }
''')],
  "a list with forced duplicates pushed into an empty one",
  "the duplicates are taken over",
  r'''
  int main(){ UniqueList<int> a, b; int x=4,y=5; a.push_back(x); a.force_push_back(x); a.push_back(y); std::vector<int> ix=b.push_list(a); need(b.size()==2 && ix==std::vector<int>({0,0,1}),"a unique list holds each value once"); }''')

bug("G02-ear-orientation-kept", "G02",
  [("delynoi/src/triangulation/EarTriangulationGenerator.cpp", "    if(size==3){\n        Triangle ear ({pointList[0], pointList[1], pointList[2]}, points);", "    if(size==3){\n        std::sort(pointList.begin(), pointList.end());\n        Triangle ear ({pointList[0], pointList[1], pointList[2]}, points);")],
  "a polygon whose last three corners are not in increasing order, as a clockwise one or one given by indexes",
  "the last triangle has the other direction than the polygon",
  r'''
  int main(){ Pts p=square(4); std::vector<int> ix{3,2,1,0}; Polygon q(ix,p); double a=0; for(auto t: EarTriangulationGenerator().triangulate(q,p)) a+=t.signedArea(p); need(std::abs(a+16)<1e-9,"the triangles have the direction of the polygon"); }''')

bug("T02-restricted-first-only", "T02",
  [(TG, "        in.segmentlist[2*k] = pointList.indexOf(s.getFirst());\n        in.segmentlist[2*k+1] = pointList.indexOf(s.getSecond());", "        int first = pointList.indexOf(s.getFirst());\n        int second = pointList.indexOf(s.getSecond());\n        //Corners of the border come after the seeds and are connected by the border already\n        bool border = first>=(int) point_list.size() && second>=(int) point_list.size();\n        in.segmentlist[2*k] = first;\n        in.segmentlist[2*k+1] = border? regionIndex[(std::find(regionIndex.begin(), regionIndex.end(), first) - regionIndex.begin() + 1) % regionIndex.size()] : second;")],
  "a restricted segment between two corners of the domain (a diagonal)",
  "the diagonal is not an edge of the mesh",
  r'''
  int main(){
    Pts p{Point(0,0),Point(10,0),Point(12,9),Point(0,7)}; Region r(p); Pts s{Point(2,5)}; r.addSeedPoints(s); Pts sd=r.getSeedPoints(); bool found[2]={false,false};
    for(int d=0;d<2;d++){ TriangleDelaunayGenerator g(sd,r); std::vector<PointSegment> rs{PointSegment(p[d],p[d+2])}; Mesh<Triangle> m=g.getConstrainedDelaunayTriangulation(rs); auto& l=m.getPoints(); found[d]=m.getSegments()->containsSegment(IndexSegment(l.indexOf(p[d]),l.indexOf(p[d+2]))); }
    need(found[0]&&found[1],"a restricted diagonal is an edge of the mesh");
  }''')

