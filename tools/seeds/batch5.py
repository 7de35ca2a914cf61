# fifth batch
bug("V04-holes-forgotten", "V04",
  [(TG, '''        if(out.pointmarkerlist[i]==1){
            this->meshPoints.back().setBoundary();''', '''        //Restricted segments have markers too
        if(out.pointmarkerlist[i]==1 && this->region.inEdges(this->meshPoints.back())){
            this->meshPoints.back().setBoundary();''')],
  "an interior hole: its corners are not in the outline of the region",
  "the points on the border of holes are not in the boundary any more",
  r'''
  int main(){
    Pts p=square(10), h{Point(4,4),Point(6,4),Point(6,6),Point(4,6)}; Region r(p); r.addHole(PolygonalHole(h)); Pts s{Point(1,1),Point(8,7)}; r.addSeedPoints(s); Pts sd=r.getSeedPoints();
    TriangleDelaunayGenerator g(sd,r); Mesh<Triangle> m=g.getConstrainedDelaunayTriangulation();
    for(auto& q: m.getPoints().getList()) need(q.isInBoundary()==(std::find(sd.begin(),sd.end(),q)==sd.end()), "exactly the corners are in the boundary");
  }''')

bug("V04-restricted-flagged", "V04",
  [(TG, '''    in.segmentmarkerlist = (int*) NULL;
''', '''    //Triangle marks the segments it is given, as it does with those of the boundary it finds
    in.segmentmarkerlist = (int*) NULL;
    if(!restrictedSegments.empty()){
        in.segmentmarkerlist = (int*)malloc(in.numberofsegments*sizeof(int));
        std::fill(in.segmentmarkerlist, in.segmentmarkerlist + in.numberofsegments, 1);
    }
''')],
  "a constrained triangulation with restricted segments inside of the domain",
  "the ends of the restricted segments are reported to be in the boundary",
  r'''
  int main(){
    Pts p=square(10); Region r(p); Pts s{Point(3,3),Point(7,6),Point(2,8)}; r.addSeedPoints(s); Pts sd=r.getSeedPoints();
    TriangleDelaunayGenerator g(sd,r); Mesh<Triangle> m=g.getConstrainedDelaunayTriangulation({PointSegment(sd[0],sd[1])});
    for(auto& q: m.getPoints().getList()) need(q.isInBoundary()==(std::find(sd.begin(),sd.end(),q)==sd.end()), "exactly the corners are in the boundary");
  }''')

bug("V04-copies-plain", "V04",
  [(MH, '''Mesh<T>::Mesh(const Mesh &m) {
    this->points = m.getPoints();''', '''Mesh<T>::Mesh(const Mesh &m) {
    for(const Point& p: m.getPoints().getList()){
        Point point (p.getX(), p.getY());
        this->points.force_push_back(point);
    }''')],
  "a copy of a mesh, asked for the boundary",
  "no point of a copied mesh is in the boundary",
  r'''
  int main(){
    Pts p=square(10); Region r(p); Pts s{Point(3,3),Point(7,6),Point(2,8)}; r.addSeedPoints(s); Pts sd=r.getSeedPoints();
    TriangleVoronoiGenerator g(sd,r); Mesh<Polygon> m(g.getMesh());
    for(int i=0;i<m.getPoints().size();i++) need(m.getPoint(i).isInBoundary()==g.getMesh().getPoint(i).isInBoundary(), "a copy has the same boundary");
  }''')

bug("R01-crossing-hole-keeps", "R01",
  [(RG, '''        this->mutate(newPoints);
    }else{''', '''        Polygon::mutate(newPoints);
        this->p = newPoints;

        //Only the seeds in the hole are lost
        std::vector<Point> remaining;
        for(Point& seed: this->seedPoints){
            if(!h.containsPoint(seed)){
                remaining.push_back(seed);
            }
        }
        this->seedPoints = remaining;
    }else{''')],
  "a seed on the border of a hole that crosses the outline, which is a border of the region afterwards",
  "the seed is dropped although it belongs to the region",
  r'''
  int main(){
    Pts p=square(10), h{Point(8,4),Point(12,4),Point(12,6),Point(8,6)}; Region r(p); Pts s{Point(1,1),Point(9,4),Point(8,5),Point(9,5)}; r.addSeedPoints(s); r.addHole(PolygonalHole(h));
    Pts k=r.getSeedPoints(); need(k.size()==3 && k[1]==Point(9,4) && k[2]==Point(8,5), "seeds on the new border belong to the region");
  }''')

bug("G01-convex-prefix", "G01",
  [(PG, '''    for(int i=1;i<n; i++){
        double newResult''', '''    for(int i=1;i<n-1; i++){
        double newResult''')],
  "a polygon whose only reentrant corner is the first one of its list",
  "the polygon is reported to be convex",
  r'''
  int main(){
    Pts p{Point(4,4),Point(10,0),Point(10,10),Point(0,10)}; Pts q{Point(3,3),Point(10,0),Point(10,10),Point(0,10)}; Pts h{Point(6,6),Point(10,0),Point(10,10),Point(0,10)};
    Polygon a(p), b(q), c(h); need(a.isConvex(p)&&b.isConvex(q), "convex"); need(!c.isConvex(h), "reentrant at its first corner");
  }''')

bug("G01-box-negative", "G01",
  [(RG, '''    double xMax = LLONG_MIN;''', '''    double xMax = 0;'''), (RG, '''    double yMax = LLONG_MIN;''', '''    double yMax = 0;''')],
  "a region with negative coordinates only",
  "the bounding box reaches the axes, and generated seeds do not fill the region",
  r'''
  int main(){
    Pts p{Point(-10,-10),Point(-5,-10),Point(-5,-2),Point(-10,-2)}; Region r(p); BoundingBox b=r.getBox(); need(b.xMax()==-5 && b.yMax()==-2, "the box ends where the region does");
  }''')

bug("I01-snap-zero", "I01",
  [(MH, '''void Mesh<T>::printInStream(std::ofstream &file) {
''', '''void Mesh<T>::printInStream(std::ofstream &file) {
    //Coordinates that are zero up to rounding are written so
    double tolerance = DelynoiConfig::instance()->getTolerance();
    std::vector<Point> points = this->points.getList();
    for(Point& p: points){
        p.setX(std::abs(p.getX())<tolerance? 0 : p.getX());
        p.setY(std::abs(p.getY())<tolerance? 0 : p.getY());
    }

''')],
  "a point whose coordinate is nearer to zero than the tolerance, written with more than five decimals",
  "the coordinate is written as zero: the mesh read back is not the one written to the configured precision",
  r'''
  int main(){
    DelynoiConfig::instance()->setPrecision(9); double e=8e-6;
    Pts p{Point(e,e),Point(1,e),Point(1,1),Point(e,1)}; Region r(p); Pts s{Point(0.4,0.4)}; r.addSeedPoints(s); Pts sd=r.getSeedPoints(); TriangleDelaunayGenerator g(sd,r); Mesh<Triangle> m=g.getConstrainedDelaunayTriangulation();
    m.printInFile("/m.txt"); std::string home=getenv("HOME"); std::ifstream f; for(auto n: {utilities::getPath()+"/m.txt", std::string("m.txt"), home+"/m.txt"}){ f.open(n); if(f) break; f.clear(); }
    int n; f>>n; need(n==m.getPoints().size(),"all points are written"); for(int i=0;i<n;i++){ double x,y; f>>x>>y; need(std::abs(x-m.getPoint(i).getX())<1e-8 && std::abs(y-m.getPoint(i).getY())<1e-8, "points are written to the configured precision"); }
  }''')

bug("C01-close-corners-merged", "C01",
  [("delynoi/src/models/hole/CircularHole.cpp", '''    this->HolePoints = discretizeCircle();''', '''    std::vector<Point> circlePoints = discretizeCircle();
    UniqueList<Point> distinct;
    distinct.push_list(circlePoints);
    this->HolePoints = distinct.getList();''')],
  "a circle so small, or discretized so finely, that neighbouring corners are closer than the tolerance",
  "the hole has fewer corners than configured, at unequal distances",
  r'''
  int main(){
    DelynoiConfig::instance()->setDiscretizationGrade(400); CircularHole h(Point(1,2), 5e-4); need(h.getPoints().size()==400, "as many corners as configured");
  }''')

bug("R03-last-edge", "R03",
  [("delynoi/include/delynoi/models/polygon/Polygon.h", '''    std::vector<int> points;
''', '''    std::vector<int> points;

    /*
     * Edge in which the last point was found, points are often asked for along an edge
     */
    int lastEdge = -1;
'''), (PG, '''    for(int i=0; i<segments.size(); i++){
        if(segments[i].contains(p,point)){
            return segments[i];''', '''    if(lastEdge>=0 && lastEdge<(int) segments.size() && segments[lastEdge].contains(p,point)){
        return segments[lastEdge];
    }

    for(int i=0; i<segments.size(); i++){
        if(segments[i].contains(p,point)){
            lastEdge = i;
            return segments[i];''')],
  "a corner, which is in two edges, asked for after a point of its second edge",
  "the container edge of the same point depends on what was asked before",
  r'''
  int main(){
    Pts p=square(10); Polygon a(p); IndexSegment e=a.containerEdge(p,Point(10,0)); a.containerEdge(p,Point(10,5)); IndexSegment f=a.containerEdge(p,Point(10,0)); need(e.getFirst()==f.getFirst() && e.getSecond()==f.getSecond(), "the same edge contains the same point");
  }''')

bug("R04-box-prefilter", "R04",
  [(PG, '''            if(i==j || j==(i-1+n)%n || j==(i+1)%n){
                continue;
            }
''', '''            if(i==j || j==(i-1+n)%n || j==(i+1)%n){
                continue;
            }

            //Segments side by side cannot meet
            double left = std::min(points[s.getFirst()].getX(), points[s.getSecond()].getX());
            double right = std::max(points[s.getFirst()].getX(), points[s.getSecond()].getX());
            Point otherFirst = points[segments[j].getFirst()], otherSecond = points[segments[j].getSecond()];
            if(std::max(otherFirst.getX(), otherSecond.getX())<=left || std::min(otherFirst.getX(), otherSecond.getX())>=right){
                continue;
            }
''')],
  "an outline that touches itself, with the corner on a vertical edge or on another corner, from the side",
  "the self-touching outline is accepted",
  r'''
  int main(){
    Pts p{Point(0,0),Point(10,0),Point(10,10),Point(0,10),Point(10,5)}; Pts q{Point(0,0),Point(10,0),Point(10,10),Point(0,10),Point(10,5.01),Point(0,5)}; bool t=false;
    try{ Polygon a(p); }catch(std::invalid_argument&){ t=true; } need(t,"touches itself");
  }''')

bug("S01-pop-shifts", "S01",
  [("lib/utilities/include/utilities/UniqueList.h", '''    this->list.erase(this->list.begin());

    this->map.clear();
    for (int i=0;i<this->list.size();i++){
        T e = this->list[i];
        map.insert(std::make_pair(e, i));
    }''', '''    this->map.erase(this->list.front());
    this->list.erase(this->list.begin());

    for (auto& e: this->map){
        e.second--;
    }''')],
  "a list with a value that was forced in a second time, whose first occurrence is removed from the front",
  "the value is in the list, but the list neither finds it nor refuses it again",
  r'''
  int main(){
    UniqueList<int> l; int a=1,b=2; l.push_back(a); l.push_back(b); l.force_push_back(a); l.pop_front(); need(l.contains(1) && l.indexOf(1)==1 && l.push_back(a)==1 && l.size()==2, "the value is still there");
  }''')
