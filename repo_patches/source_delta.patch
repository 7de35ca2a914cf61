From 15d638a2e1ce154151146d45915e55ef2e13f1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 01/40] fix: Point::isValid is true exactly for points that
 have coordinates

---
 delynoi/src/models/basic/Point.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/basic/Point.cpp b/delynoi/src/models/basic/Point.cpp
index 6b14fe4..0bea35e 100644
--- a/delynoi/src/models/basic/Point.cpp
+++ b/delynoi/src/models/basic/Point.cpp
@@ -14,7 +14,7 @@ Point::Point() {
 }
 
 bool Point::isValid() {
-    return this->isEmpty;
+    return !this->isEmpty;
 }
 
 double Point::getX() const{
-- 
2.43.0


From bc3c1ad7cb0cd7b59c8a934e51e4fb23148190de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:45 +0000
Subject: [PATCH 02/40] fix: return the conforming Delaunay mesh by value
 instead of a reference to a local

---
 delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h | 2 +-
 delynoi/src/voronoi/TriangleDelaunayGenerator.cpp           | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index ab53d6c..6dd44f9 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -62,7 +62,7 @@ public:
      * segments, are Delaunay through the inclusion of additional points)
      * @return the conforming Delaunay triangulation
      */
-    Mesh<Triangle>& getConformingDelaunayTriangulation();
+    Mesh<Triangle> getConformingDelaunayTriangulation();
 
     /* Returns the constrained Delaunay triangulation (triangles next to constrained segments are not necessarily
      * delaunay)
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index 4352961..f24e3c0 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -141,14 +141,13 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
     free(out.edgemarkerlist);
 }
 
-Mesh<Triangle>& TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
+Mesh<Triangle> TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
     if(!this->empty){
         char switches[] = "pzejDQ";
         callTriangle(seedPoints, switches);
     }
 
-    Mesh<Triangle> mesh = initializeMesh<Triangle>();
-    return mesh;
+    return initializeMesh<Triangle>();
 }
 
 void
-- 
2.43.0


From ced859320ccf6e62a8c517ebd02708f6160bae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 03/40] fix: compute the triangulation that is asked for on
 every query of a Delaunay generator

---
 .../voronoi/TriangleDelaunayGenerator.h       |  1 -
 .../src/voronoi/TriangleDelaunayGenerator.cpp | 36 +++++++++----------
 2 files changed, 18 insertions(+), 19 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
index 6dd44f9..1ea2246 100644
--- a/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
+++ b/delynoi/include/delynoi/voronoi/TriangleDelaunayGenerator.h
@@ -38,7 +38,6 @@ private:
     std::vector<EdgeData> edges;
     UniqueList<Point> circumcenters;
     std::unordered_map<Key, int, KeyHasher> edgeMap;
-    bool empty = false;
 
     /* Calls the Triangle library, filling the class members with the result
      * @param point_list points which Delaunay triangulation must be computed
diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index f24e3c0..00662bb 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -7,14 +7,22 @@ TriangleDelaunayGenerator::TriangleDelaunayGenerator(const std::vector<Point>& p
 }
 
 void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, char *switches) {
-    this->empty = true;
     this->callTriangle(point_list, switches, std::vector<PointSegment>());
 }
 
 void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, char *switches,
                                              std::vector<PointSegment> restrictedSegments) {
 
-    this->empty = true;
+    //A generator can be queried more than once: forget the result of any previous call
+    this->triangles.clear();
+    this->meshPoints.clear();
+    this->delaunayEdges = new SegmentMap;
+    this->points.clear();
+    this->realPoints.clear();
+    this->edges.clear();
+    this->circumcenters.clear();
+    this->edgeMap.clear();
+
     struct triangulateio in, out;
 
     std::vector<Point> regionPoints = region.getRegionPoints();
@@ -142,10 +150,8 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
 }
 
 Mesh<Triangle> TriangleDelaunayGenerator::getConformingDelaunayTriangulation()  {
-    if(!this->empty){
-        char switches[] = "pzejDQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejDQ";
+    callTriangle(seedPoints, switches);
 
     return initializeMesh<Triangle>();
 }
@@ -183,29 +189,23 @@ TriangleDelaunayGenerator::writeTriangleInputFile(UniqueList<Point> &point_list,
 }
 
 DelaunayInfo TriangleDelaunayGenerator::getConformingDelaunay() {
-    if(!this->empty){
-        char switches[] = "pzejDQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejDQ";
+    callTriangle(seedPoints, switches);
 
     return DelaunayInfo(triangles, meshPoints, delaunayEdges, points, realPoints, edges, edgeMap, circumcenters);
 }
 
 Mesh<Triangle> TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation() {
-    if(!this->empty){
-        char switches[] = "pzejQ";
-        callTriangle(seedPoints, switches);
-    }
+    char switches[] = "pzejQ";
+    callTriangle(seedPoints, switches);
 
     return initializeMesh<Triangle>();
 }
 
 Mesh<Triangle>
 TriangleDelaunayGenerator::getConstrainedDelaunayTriangulation(std::vector<PointSegment> restrictedSegments) {
-    if(!this->empty){
-        char switches[] = "pzejQ";
-        callTriangle(seedPoints, switches, restrictedSegments);
-    }
+    char switches[] = "pzejQ";
+    callTriangle(seedPoints, switches, restrictedSegments);
 
     return initializeMesh<Triangle>();
 }
-- 
2.43.0


From 0f9cb6e385da55371d48676a784fcc80078dd29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 04/40] fix: define random_integer_noise with the signature it
 is declared with

---
 delynoi/src/models/generator/noise/noise.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/generator/noise/noise.cpp b/delynoi/src/models/generator/noise/noise.cpp
index ecdcb56..72623fd 100644
--- a/delynoi/src/models/generator/noise/noise.cpp
+++ b/delynoi/src/models/generator/noise/noise.cpp
@@ -7,7 +7,7 @@ namespace noise{
         return new RandomDoubleNoise(f, min, max);
     }
 
-    Functor* random_integer_noise(Functor* f, int min, int max){
+    Functor* random_integer_noise(Functor* f, double min, double max){
         return new RandomIntegerNoise(f, min, max);
     }
 }
-- 
2.43.0


From 278ccd7f1c69936b80a87e7ca605039e5371ab09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 05/40] fix: define collinear for segments with the signature
 it is declared with

---
 delynoi/src/utilities/geometryFunctions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/utilities/geometryFunctions.cpp b/delynoi/src/utilities/geometryFunctions.cpp
index 8693474..817ca6f 100644
--- a/delynoi/src/utilities/geometryFunctions.cpp
+++ b/delynoi/src/utilities/geometryFunctions.cpp
@@ -17,7 +17,7 @@ namespace geometry_functions{
         return std::abs(area2(p1,p2,p3))<config->getTolerance();
     }
 
-    bool collinear(PointSegment seg1, PointSegment seg2){
+    bool collinear(PointSegment& seg1, PointSegment& seg2){
         return collinear(seg1.getFirst(), seg1.getSecond(), seg2.getFirst()) &&
                 collinear(seg1.getFirst(), seg1.getSecond(), seg2.getSecond());
     }
-- 
2.43.0


From ad776dc59f1d8e9f0cc3372ec2506bf9e35ccaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 06/40] fix: cut only convex vertices as ears when
 triangulating a polygon

---
 delynoi/src/triangulation/EarTriangulationGenerator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/triangulation/EarTriangulationGenerator.cpp b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
index fc73a4e..bc45b1a 100644
--- a/delynoi/src/triangulation/EarTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
@@ -14,11 +14,14 @@ Triangle EarTriangulationGenerator::getEar(std::vector<Point>& points, std::vect
         return ear;
     }
 
+    //A vertex is an ear only if it is convex, this is, if it turns in the same direction as the whole polygon
+    double area = Polygon(pointList, points).signedArea(points);
+
     for(int i=0;i<size;i++){
         bool test = false;
         Triangle t ({pointList[(size+i-1)%size], pointList[i%size], pointList[(size+i+1)%size]}, points);
 
-        if(t.isConvex(points)){
+        if(t.signedArea(points)*area>0){
             for(int j=0;j<size;j++){
                 if(!t.isVertex(pointList[j]) && t.containsPoint(points, points[pointList[j]])){
                     test = true;
-- 
2.43.0


From d1f4f971f6b44e77cb260955046fc930be174bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 07/40] fix: detect non convex polygons whose first three
 vertices are collinear

---
 delynoi/src/models/polygon/Polygon.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 5e8e16d..1a200e5 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -203,6 +203,11 @@ bool Polygon::isConvex(std::vector<Point>& p) {
         if(determinant*newResult<0){
             return false;
         }
+
+        //Collinear vertices say nothing about the direction in which the polygon turns
+        if(determinant==0){
+            determinant = newResult;
+        }
     }
 
     return true;
-- 
2.43.0


From be749561006341fad966e6105d4537d341fc3e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 08/40] fix: return Delaunay triangles of a polygon that refer
 to the given list of points

---
 .../DelaunayTriangulationGenerator.cpp        | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp b/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
index 0c75bb6..df64768 100644
--- a/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/DelaunayTriangulationGenerator.cpp
@@ -1,10 +1,23 @@
 #include <delynoi/triangulation/DelaunayTriangulationGenerator.h>
 
 std::vector<Triangle> DelaunayTriangulationGenerator::triangulate(Polygon p, std::vector<Point>& points) {
-    Region r (p, points);
+    std::vector<int> polygonIndexes = p.getPoints();
+    std::vector<Point> polygonPoints = p.getPoints(points);
 
-    TriangleDelaunayGenerator generator(points,r);
+    Region r (p, points);
+    TriangleDelaunayGenerator generator(polygonPoints,r);
     Mesh<Triangle> triangulation = generator.getConstrainedDelaunayTriangulation();
 
-    return triangulation.getPolygons();
+    //The triangulation numbers its own points, the result has to refer to the given ones
+    std::vector<Triangle> triangles;
+    for(Triangle t: triangulation.getPolygons()){
+        std::vector<int> trianglePoints;
+        for(int index: t.getPoints()){
+            int position = utilities::indexOf(polygonPoints, triangulation.getPoint(index));
+            trianglePoints.push_back(polygonIndexes[position]);
+        }
+        triangles.push_back(Triangle(trianglePoints, points));
+    }
+
+    return triangles;
 }
-- 
2.43.0


From 5d23d85e18991c5d4fca8062a43e58279b14a6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 09/40] fix: keep the index of a UniqueList in step with
 pop_front and force_push_back

---
 lib/utilities/include/utilities/UniqueList.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/utilities/include/utilities/UniqueList.h b/lib/utilities/include/utilities/UniqueList.h
index 4488837..2c94f5e 100644
--- a/lib/utilities/include/utilities/UniqueList.h
+++ b/lib/utilities/include/utilities/UniqueList.h
@@ -59,6 +59,7 @@ int UniqueList<T>::push_back(T& item) {
 
 template <class T>
 int UniqueList<T>::force_push_back(T &item) {
+    map.insert(std::make_pair(item, list.size()));
     list.push_back(item);
 
     return (int) list.size()-1;
@@ -66,10 +67,13 @@ int UniqueList<T>::force_push_back(T &item) {
 
 template <class T>
 void UniqueList<T>::pop_front() {
-    T elem = this->list[0];
-
     this->list.erase(this->list.begin());
-    this->map.erase(elem);
+
+    this->map.clear();
+    for (int i=0;i<this->list.size();i++){
+        T e = this->list[i];
+        map.insert(std::make_pair(e, i));
+    }
 }
 
 template <class T>
-- 
2.43.0


From 74b6a54220a22234c900fb3b1bd2c3952519098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 10/40] fix: discretize a circle with as many points as the
 configured grade

---
 delynoi/src/models/polygon/Circle.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/polygon/Circle.cpp b/delynoi/src/models/polygon/Circle.cpp
index b4ba79f..946f6ee 100644
--- a/delynoi/src/models/polygon/Circle.cpp
+++ b/delynoi/src/models/polygon/Circle.cpp
@@ -11,16 +11,14 @@ std::vector<Point> Circle::discretizeCircle() {
     DelynoiConfig* config = DelynoiConfig::instance();
 
     std::vector<Point> points;
-    double delta = 360 / config->getDiscretizationGrade();
+    int grade = config->getDiscretizationGrade();
 
-    double angle = 0;
-    while (angle < 360) {
+    for (int i = 0; i < grade; i++) {
+        double angle = 360.0*i/grade;
         double x = center.getX() + radius * cos(utilities::radian(angle));
         double y = center.getY() + radius * sin(utilities::radian(angle));
 
         points.push_back(Point(x, y));
-
-        angle += delta;
     }
 
     return points;
-- 
2.43.0


From 3cda3d59df19580b066d0e2114e2376e5f187e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 11/40] fix: generate finite points when there is only one row
 or column

---
 delynoi/src/models/generator/PointGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/generator/PointGenerator.cpp b/delynoi/src/models/generator/PointGenerator.cpp
index 1ec7cc2..765084f 100644
--- a/delynoi/src/models/generator/PointGenerator.cpp
+++ b/delynoi/src/models/generator/PointGenerator.cpp
@@ -25,8 +25,8 @@ PointGenerator::PointGenerator(Functor *l, functions::independent_variable varia
 }
 
 void PointGenerator::generate(std::vector <Point> &vector, BoundingBox box, int nX, int nY) {
-    double dX = box.getWidth()/(nX-1);
-    double dY = box.getHeight()/(nY-1);
+    double dX = nX>1? box.getWidth()/(nX-1) : 0;
+    double dY = nY>1? box.getHeight()/(nY-1) : 0;
 
     for(int i = 0; i<nY; i++){
         for(int j = 0; j<nX; j++){
-- 
2.43.0


From 0858243907c8a66c10cc382574feba3344f1be54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 12/40] fix: alternate every batch of constantAlternating, not
 only the first ones

---
 delynoi/src/models/generator/functions/FunctorClasses.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delynoi/src/models/generator/functions/FunctorClasses.cpp b/delynoi/src/models/generator/functions/FunctorClasses.cpp
index 7c7b12b..fc9697a 100644
--- a/delynoi/src/models/generator/functions/FunctorClasses.cpp
+++ b/delynoi/src/models/generator/functions/FunctorClasses.cpp
@@ -89,6 +89,7 @@ public:
         if(index<visitedPlaces.size()-1){
             alternating = !alternating;
             visitedPlaces.clear();
+            visitedPlaces.push_back(x);
         }
 
         if(alternating){
-- 
2.43.0


From e4c95dc131fc974a72ad326d67dc02b42ecb7dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 13/40] fix: print mesh coordinates with the configured
 precision

---
 delynoi/include/delynoi/models/Mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 4bd46dd..fdd784b 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -232,7 +232,7 @@ template <typename T>
 void Mesh<T>::printInStream(std::ofstream &file) {
     file << points.size() << std::endl;
     for(int i=0;i<points.size();i++){
-        file << points[i].getString() << std::endl;
+        file << points[i].getX() << " " << points[i].getY() << std::endl;
     }
 
     file << this->edges->size() << std::endl;
-- 
2.43.0


From d13549f6c23549e348a65c9d5e4e7fe008ff85b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:35 +0000
Subject: [PATCH 14/40] fix: print indexes as integers

---
 delynoi/src/models/basic/IndexSegment.cpp                | 2 +-
 delynoi/src/models/neighbourhood/EdgeData.cpp            | 2 +-
 delynoi/src/models/neighbourhood/NeighboursBySegment.cpp | 2 +-
 delynoi/src/models/polygon/Polygon.cpp                   | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/basic/IndexSegment.cpp b/delynoi/src/models/basic/IndexSegment.cpp
index dfbadcd..d2cd37f 100644
--- a/delynoi/src/models/basic/IndexSegment.cpp
+++ b/delynoi/src/models/basic/IndexSegment.cpp
@@ -53,7 +53,7 @@ bool IndexSegment::isCCW(const std::vector<Point>& points, Point center) {
 }
 
 std::string IndexSegment::getString() const {
-    return utilities::toString<double>(this->getFirst()) + " " + utilities::toString<double>(this->getSecond());
+    return utilities::toString<int>(this->getFirst()) + " " + utilities::toString<int>(this->getSecond());
 }
 
 bool IndexSegment::operator==(const IndexSegment& other) const {
diff --git a/delynoi/src/models/neighbourhood/EdgeData.cpp b/delynoi/src/models/neighbourhood/EdgeData.cpp
index a52a3f3..45a86a9 100644
--- a/delynoi/src/models/neighbourhood/EdgeData.cpp
+++ b/delynoi/src/models/neighbourhood/EdgeData.cpp
@@ -17,7 +17,7 @@ void EdgeData::setTriangle(int t) {
 }
 
 std::string EdgeData::getString() {
-    return utilities::toString<double>(this->p1) + " " + utilities::toString<double>(this->p2);
+    return utilities::toString<int>(this->p1) + " " + utilities::toString<int>(this->p2);
 }
 
 bool EdgeData::operator==(const EdgeData &other) const {
diff --git a/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp b/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
index b9ada00..dcd4275 100644
--- a/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
+++ b/delynoi/src/models/neighbourhood/NeighboursBySegment.cpp
@@ -29,7 +29,7 @@ int NeighboursBySegment::getSecond() const{
 }
 
 std::string NeighboursBySegment::getString() const {
-    return utilities::toString<double>(this->n1) + " " + utilities::toString<double>(this->n2);
+    return utilities::toString<int>(this->n1) + " " + utilities::toString<int>(this->n2);
 }
 
 bool NeighboursBySegment::operator==(const NeighboursBySegment &other) const{
diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 1a200e5..04072a7 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -249,10 +249,10 @@ bool Polygon::operator==(const Polygon &other) const{
 }
 
 std::string Polygon::getString() {
-    std::string base = utilities::toString<double>(this->points.size());
+    std::string base = utilities::toString<int>(this->points.size());
 
     for(int i=0;i<this->points.size();i++){
-        base += " " + utilities::toString<double>(this->points[i]);
+        base += " " + utilities::toString<int>(this->points[i]);
     }
 
     return base;
-- 
2.43.0


From 98d82e67b50bcba76f2e66e05ea72e0e186dd2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 15/40] fix: load the meshes that the library prints, with
 their point neighbourhoods

---
 delynoi/include/delynoi/models/Mesh.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index fdd784b..929f5c0 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -169,24 +169,35 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
     std::string line;
     std::getline(infile, line);
     int numberMeshPoints = std::atoi(line.c_str());
+    std::vector<int> pointIndexes;
     for (int i = 0; i < numberMeshPoints; ++i) {
         std::getline(infile, line);
         std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
 
         Point newPoint(std::atof(splittedLine[0].c_str()), std::atof(splittedLine[1].c_str()));
-        this->points.push_back(newPoint);
+        pointIndexes.push_back(this->points.push_back(newPoint));
     }
 
     std::getline(infile, line);
     int numberMeshPolygons = std::atoi(line.c_str());
+    std::getline(infile, line);
 
-    for (int i = 0; i < numberMeshPolygons; ++i) {
+    //The meshes printed by this class include their edges (two indexes per line) before the polygons
+    if(utilities::splitBySpaces(line).size()==2){
+        for (int i = 0; i < numberMeshPolygons; ++i) {
+            std::getline(infile, line);
+        }
+
+        numberMeshPolygons = std::atoi(line.c_str());
         std::getline(infile, line);
+    }
+
+    for (int i = 0; i < numberMeshPolygons; ++i) {
         std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
 
         std::vector<int> polygonPoints;
         for (int j = 1; j < splittedLine.size(); ++j) {
-            polygonPoints.push_back(std::atoi(splittedLine[j].c_str()) - startIndex);
+            polygonPoints.push_back(pointIndexes[std::atoi(splittedLine[j].c_str()) - startIndex]);
         }
 
         T newPolygon(polygonPoints, this->points.getList());
@@ -196,7 +207,10 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
 
         for (IndexSegment s: segments){
             this->edges->insert(s, i);
+            this->pointMap->insert(this->points[s.getFirst()], i);
         }
+
+        std::getline(infile, line);
     }
 }
 
-- 
2.43.0


From f99beac66ae73958c61eec24b70a780215d9b9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 16/40] fix: reject self intersecting polygons when they are
 created from their points

---
 delynoi/src/models/polygon/Polygon.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 04072a7..fe176bb 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -33,12 +33,11 @@ void Polygon::mutate(std::vector<Point> &p) {
 }
 
 Polygon::Polygon(std::vector<Point> &p) {
+    delynoi_utilities::TrivialIndexVector(this->points,p.size());
     if(isSelfIntersecting(p)){
-        std::invalid_argument("Self intersecting polygons are not supported");
+        throw std::invalid_argument("Self intersecting polygons are not supported");
     }
 
-    delynoi_utilities::TrivialIndexVector(this->points,p.size());
-
     std::vector<Point> this_points;
     for(int i=0;i<points.size();i++){
         this_points.push_back(p[points[i]]);
@@ -294,8 +293,16 @@ bool Polygon::operator<(const Polygon &other) const {
 }
 
 bool Polygon::isSelfIntersecting(std::vector<Point>& points) {
-    std::vector<IndexSegment> segments;
-    this->getSegments(segments);
+    std::vector<IndexSegment> allSegments, segments;
+    this->getSegments(allSegments);
+
+    // Repeated points give segments without length, which cannot intersect anything
+    for (IndexSegment s: allSegments) {
+        if(!(points[s.getFirst()]==points[s.getSecond()])){
+            segments.push_back(s);
+        }
+    }
+
     int n = segments.size();
     Point intersection;
 
-- 
2.43.0


From 97473da29b71dd29b5b3e4b0ff7d995709ac13e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 17/40] fix: copy the seed points of a Region along with the
 rest of it

---
 delynoi/src/models/Region.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index b10a28e..9de9b98 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -25,6 +25,7 @@ Region::Region(const Polygon &other, std::vector<Point>& points) : Polygon() {
 Region::Region(const Region &other) : Polygon(other){
     this->p = other.p;
     this->holes.assign(other.holes.begin(), other.holes.end());
+    this->seedPoints.assign(other.seedPoints.begin(), other.seedPoints.end());
 }
 
 std::vector<Hole>& Region::getHoles() {
-- 
2.43.0


From 987d3ff71a91123e5d899e2c48945eb1533764fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 18/40] fix: addSeedPoints adds to the seed points instead of
 replacing them

---
 delynoi/src/models/Region.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 9de9b98..87360a7 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -91,7 +91,7 @@ void Region::generateSeedPoints(PointGenerator p, int nX, int nY){
 }
 
 void Region::addSeedPoints(std::vector<Point>& seeds) {
-    this->seedPoints.assign(seeds.begin(), seeds.end());
+    this->seedPoints.insert(this->seedPoints.end(), seeds.begin(), seeds.end());
     this->clean();
 }
 
-- 
2.43.0


From 8129ef7981b9c8babfa76cabc489177b2a824d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 19/40] fix: drop the seed points left outside of the domain by
 addHole and mutate

---
 delynoi/src/models/Region.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 87360a7..3a4caff 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -7,6 +7,7 @@ Region::Region(std::vector<Point>& points) : Polygon(points){
 void Region::mutate(std::vector<Point> &points) {
     this->p = points;
     Polygon::mutate(points);
+    this->clean();
 }
 
 Region::Region() : Polygon(){}
@@ -74,6 +75,7 @@ void Region::addHole(Hole h) {
 
         if(Polygon::containsPoint(this->p, h.getCenter())){
             this->holes.push_back(h);
+            this->clean();
         }else{
             throw std::invalid_argument("Hole lies completely outside of domain region");
         }
-- 
2.43.0


From 39b29a3496bbbc03ca9aa437c80e7f8a376a0d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 20/40] fix: do not overflow when scaling coordinates for
 Clipper

---
 delynoi/src/models/Region.cpp                      | 8 ++++----
 delynoi/src/models/hole/clipper/ClipperWrapper.cpp | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 3a4caff..b163d32 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -45,14 +45,14 @@ void Region::addHole(Hole h) {
     ClipperLib::Paths solution;
 
     for(int i=0;i<this->p.size(); i++){
-        region << ClipperLib::IntPoint((int)(config->getScale()*this->p[i].getX()),
-                                       (int)(config->getScale()*this->p[i].getY()));
+        region << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*this->p[i].getX()),
+                                       (ClipperLib::cInt)(config->getScale()*this->p[i].getY()));
     }
 
     std::vector<Point> holePoints = h.getPoints();
     for(int i=0;i<holePoints.size();i++){
-        hole << ClipperLib::IntPoint((int)(config->getScale()*holePoints[i].getX()),
-                                     (int)(config->getScale()*holePoints[i].getY()));
+        hole << ClipperLib::IntPoint((ClipperLib::cInt)(config->getScale()*holePoints[i].getX()),
+                                     (ClipperLib::cInt)(config->getScale()*holePoints[i].getY()));
     }
 
     ClipperLib::Clipper clipper;
diff --git a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
index 76f31b8..d1db946 100644
--- a/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
+++ b/delynoi/src/models/hole/clipper/ClipperWrapper.cpp
@@ -21,7 +21,7 @@ ClipperLib::Paths ClipperWrapper::polyIntersection(std::vector<Point> parent, st
 }
 
 ClipperLib::IntPoint ClipperWrapper::scalePoint(Point point, int maxScale) {
-    return ClipperLib::IntPoint((int)(maxScale*point.getX()), (int)(maxScale*point.getY()));
+    return ClipperLib::IntPoint((ClipperLib::cInt)(maxScale*point.getX()), (ClipperLib::cInt)(maxScale*point.getY()));
 }
 
 
-- 
2.43.0


From c86df12dadba8f8aed2e52710e8d229a55b0f83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 21/40] fix: getMaxDistance takes all pairs of vertices into
 account, not only the edges

---
 delynoi/src/models/polygon/Polygon.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index fe176bb..73a6761 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -349,15 +349,16 @@ Point Polygon::getAverage(std::vector<Point> &p) {
 
 double Polygon::getMaxDistance(std::vector<Point> &points) {
     int n = this->points.size();
-    double maxEdge = LLONG_MIN;
+    double maxDistance = LLONG_MIN;
 
-    for (int i = 0; i < this->points.size(); ++i) {
-        double distance = IndexSegment(this->points[i], this->points[(i+1)%n]).length(points);
+    for (int i = 0; i < n; ++i) {
+        for (int j = i+1; j < n; ++j) {
+            double distance = IndexSegment(this->points[i], this->points[j]).length(points);
 
-        if(distance > maxEdge){
-            maxEdge = distance;
+            if(distance > maxDistance){
+                maxDistance = distance;
+            }
         }
     }
-
-    return maxEdge;
+    return maxDistance;
 }
-- 
2.43.0


From 9f4f51532d8cfcf321eebd42ed0518e72de7291a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 22/40] fix: do not take different polygons with the same hash
 for equal

---
 delynoi/src/models/polygon/Polygon.cpp | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 73a6761..53d54df 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -244,7 +244,16 @@ bool Polygon::isClockwise(std::vector<Point> &p) {
 }
 
 bool Polygon::operator==(const Polygon &other) const{
-    return this->hash==other.hash;
+    if(this->hash!=other.hash){
+        return false;
+    }
+
+    //Different polygons can have the same hash
+    std::vector<int> sorted = this->points, otherSorted = other.points;
+    std::sort(sorted.begin(), sorted.end());
+    std::sort(otherSorted.begin(), otherSorted.end());
+
+    return sorted==otherSorted;
 }
 
 std::string Polygon::getString() {
@@ -289,7 +298,15 @@ std::vector<Point> Polygon::getPoints(std::vector<Point> &p) {
 }
 
 bool Polygon::operator<(const Polygon &other) const {
-    return this->hash<other.hash;
+    if(this->hash!=other.hash){
+        return this->hash<other.hash;
+    }
+
+    std::vector<int> sorted = this->points, otherSorted = other.points;
+    std::sort(sorted.begin(), sorted.end());
+    std::sort(otherSorted.begin(), otherSorted.end());
+
+    return sorted<otherSorted;
 }
 
 bool Polygon::isSelfIntersecting(std::vector<Point>& points) {
-- 
2.43.0


From 5d0f436f29ab24acf273a586d97cf86defe46e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:32 +0000
Subject: [PATCH 23/40] fix: looking up the neighbours of a segment that is not
 in the mesh does not add it

---
 delynoi/include/delynoi/models/Mesh.h                         | 4 ++++
 .../delynoi/models/neighbourhood/NeighboursBySegment.h        | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 929f5c0..f801d76 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -288,6 +288,10 @@ Point Mesh<T>::getPoint(int i) {
 
 template <typename T>
 NeighboursBySegment Mesh<T>::getNeighbours(IndexSegment s) {
+    if(!this->edges->containsSegment(s)){
+        return NeighboursBySegment();
+    }
+
     return this->edges->get(s);
 }
 
diff --git a/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h b/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h
index ddc7c67..8da0638 100644
--- a/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h
+++ b/delynoi/include/delynoi/models/neighbourhood/NeighboursBySegment.h
@@ -13,7 +13,7 @@ private:
     /*
      * Indexes of the polygons that contain a segment
      */
-    int n1;
+    int n1 = -1;
     int n2 = -1;
 public:
     /*
-- 
2.43.0


From 993c86be006aa7a24baa9948411720b86e4f9239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:53 +0000
Subject: [PATCH 24/40] fix: give every polygonal hole a center inside of it

---
 delynoi/src/models/hole/PolygonalHole.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/delynoi/src/models/hole/PolygonalHole.cpp b/delynoi/src/models/hole/PolygonalHole.cpp
index 2020647..5c54360 100644
--- a/delynoi/src/models/hole/PolygonalHole.cpp
+++ b/delynoi/src/models/hole/PolygonalHole.cpp
@@ -1,10 +1,22 @@
 #include <delynoi/models/hole/PolygonalHole.h>
+#include <delynoi/triangulation/EarTriangulationGenerator.h>
+#include <cmath>
 
 PolygonalHole::PolygonalHole(std::vector<Point>& p) : Polygon(p) {
     for(int i=0;i<p.size();i++){
         this->HolePoints.push_back(p.at(i));
     }
     this->center = this->getCentroid(p);
+    if(!Polygon::containsPoint(p, this->center) || Polygon::inEdges(p, this->center)){
+        //The centroid of a non convex hole may lie outside of it, but its center must be inside to carve it out
+        double maxArea = 0;
+        for(Triangle ear: EarTriangulationGenerator().triangulate(*this, p)){
+            if(std::abs(ear.getArea(p)) > maxArea){
+                maxArea = std::abs(ear.getArea(p));
+                this->center = ear.getCentroid(p);
+            }
+        }
+    }
     Polygon::getSegments(this->segments);
 }
 
-- 
2.43.0


From 0d78bde9fa994abf65ba22f775b85278ae9d1e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 25/40] fix: do not take parallel segments for crossing ones
 because of rounding

---
 delynoi/src/models/basic/Segment.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/basic/Segment.cpp b/delynoi/src/models/basic/Segment.cpp
index 8f479a7..9a0157a 100644
--- a/delynoi/src/models/basic/Segment.cpp
+++ b/delynoi/src/models/basic/Segment.cpp
@@ -53,9 +53,15 @@ bool Segment<T>::intersects(Point p1, Point p2, Point o1, Point o2, Point &inter
     s1_x = p2.getX() - p1.getX();     s1_y = p2.getY() - p1.getY();
     s2_x = o2.getX() - o1.getX();     s2_y = o2.getY() - o1.getY();
 
+    //Parallel segments do not meet in one point, and the rounding error of their cross product would give any point
+    double det = -s2_x * s1_y + s1_x * s2_y;
+    if(std::abs(det) <= 1e-10 * std::sqrt((s1_x*s1_x + s1_y*s1_y)*(s2_x*s2_x + s2_y*s2_y))){
+        return false;
+    }
+
     double s, t;
-    s = (-s1_y * (p1.getX() - o1.getX()) + s1_x * (p1.getY() - o1.getY())) / (-s2_x * s1_y + s1_x * s2_y);
-    t = ( s2_x * (p1.getY() - o1.getY()) - s2_y * (p1.getX() - o1.getX())) / (-s2_x * s1_y + s1_x * s2_y);
+    s = (-s1_y * (p1.getX() - o1.getX()) + s1_x * (p1.getY() - o1.getY())) / det;
+    t = ( s2_x * (p1.getY() - o1.getY()) - s2_y * (p1.getX() - o1.getX())) / det;
 
     if (s >= (0-tolerance) && s <= (1+tolerance) && t >= (0-tolerance) && t <= (1+tolerance)){
         double i_x = p1.getX() + (t * s1_x);
-- 
2.43.0


From 5289f290720edd0655fc7c18403e66cb1a155ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:42 +0000
Subject: [PATCH 26/40] fix: do not cut ears that are degenerate up to rounding

---
 delynoi/src/triangulation/EarTriangulationGenerator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/triangulation/EarTriangulationGenerator.cpp b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
index bc45b1a..a932c84 100644
--- a/delynoi/src/triangulation/EarTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
@@ -15,13 +15,14 @@ Triangle EarTriangulationGenerator::getEar(std::vector<Point>& points, std::vect
     }
 
     //A vertex is an ear only if it is convex, this is, if it turns in the same direction as the whole polygon
-    double area = Polygon(pointList, points).signedArea(points);
+    double area = Polygon(pointList, points).getArea(points);
 
     for(int i=0;i<size;i++){
         bool test = false;
         Triangle t ({pointList[(size+i-1)%size], pointList[i%size], pointList[(size+i+1)%size]}, points);
 
-        if(t.signedArea(points)*area>0){
+        //A vertex that is straight up to rounding is no ear either, its triangle would be degenerate
+        if(t.getArea(points)*area>1e-12*area*area){
             for(int j=0;j<size;j++){
                 if(!t.isVertex(pointList[j]) && t.containsPoint(points, points[pointList[j]])){
                     test = true;
-- 
2.43.0


From 7283968ba76af0feecbe989fce310ddf4e7d4b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:11 +0000
Subject: [PATCH 27/40] fix: order index segments regardless of their
 direction, like they are compared for equality

---
 delynoi/src/models/basic/IndexSegment.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/delynoi/src/models/basic/IndexSegment.cpp b/delynoi/src/models/basic/IndexSegment.cpp
index d2cd37f..ea4244c 100644
--- a/delynoi/src/models/basic/IndexSegment.cpp
+++ b/delynoi/src/models/basic/IndexSegment.cpp
@@ -62,11 +62,15 @@ bool IndexSegment::operator==(const IndexSegment& other) const {
 }
 
 bool IndexSegment::operator<(const IndexSegment &other) const {
-    if(this->p1==other.p1){
-        return this->p2<other.p2;
+    //Equal segments can have their endpoints in any order
+    int first = std::min(this->p1, this->p2);
+    int otherFirst = std::min(other.p1, other.p2);
+
+    if(first==otherFirst){
+        return std::max(this->p1, this->p2)<std::max(other.p1, other.p2);
     }
 
-    return this->p1<other.p1;
+    return first<otherFirst;
 }
 
 double IndexSegment::length(const std::vector<Point>& points) {
-- 
2.43.0


From 66298915ed3e299654432c56e633c22e221df1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 28/40] fix: compute hashes without signed overflow

---
 lib/utilities/include/utilities/utilities.h | 2 +-
 lib/utilities/src/utilities.cpp             | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/utilities/include/utilities/utilities.h b/lib/utilities/include/utilities/utilities.h
index 22b9093..dd9a460 100644
--- a/lib/utilities/include/utilities/utilities.h
+++ b/lib/utilities/include/utilities/utilities.h
@@ -32,7 +32,7 @@ namespace utilities{
     }
 
     extern std::string toStringWithPrecision(double d, int precision);
-    extern int hash32(int key);
+    extern unsigned int hash32(unsigned int key);
     extern int random_integer(int min, int max);
     extern std::string getPath();
     extern Pair<double> normalize(Pair<double> vector);
diff --git a/lib/utilities/src/utilities.cpp b/lib/utilities/src/utilities.cpp
index ab83909..1647c8f 100644
--- a/lib/utilities/src/utilities.cpp
+++ b/lib/utilities/src/utilities.cpp
@@ -57,8 +57,8 @@ namespace utilities {
         return a* 180/ (M_PI);
     }
 
-    int hash32(int key) {
-        int c2=0x27d4eb2d;
+    unsigned int hash32(unsigned int key) {
+        unsigned int c2=0x27d4eb2d;
         key = (key ^ 61) ^ (key >> 16);
         key = key + (key << 3);
         key = key ^ (key >> 4);
-- 
2.43.0


From 27cfba88c39768db476c7d83bb657700c077c139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:24 +0000
Subject: [PATCH 29/40] fix: do not read past the end of the expansions in the
 exact predicates

---
 delynoi/include/delynoi/voronoi/lib/triangle.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/delynoi/include/delynoi/voronoi/lib/triangle.c b/delynoi/include/delynoi/voronoi/lib/triangle.c
index 6edbe11..00b7446 100644
--- a/delynoi/include/delynoi/voronoi/lib/triangle.c
+++ b/delynoi/include/delynoi/voronoi/lib/triangle.c
@@ -4976,19 +4976,19 @@ REAL *h;
   eindex = findex = 0;
   if ((fnow > enow) == (fnow > -enow)) {
     Q = enow;
-    enow = e[++eindex];
+    enow = ++eindex < elen ? e[eindex] : 0.0;
   } else {
     Q = fnow;
-    fnow = f[++findex];
+    fnow = ++findex < flen ? f[findex] : 0.0;
   }
   hindex = 0;
   if ((eindex < elen) && (findex < flen)) {
     if ((fnow > enow) == (fnow > -enow)) {
       Fast_Two_Sum(enow, Q, Qnew, hh);
-      enow = e[++eindex];
+      enow = ++eindex < elen ? e[eindex] : 0.0;
     } else {
       Fast_Two_Sum(fnow, Q, Qnew, hh);
-      fnow = f[++findex];
+      fnow = ++findex < flen ? f[findex] : 0.0;
     }
     Q = Qnew;
     if (hh != 0.0) {
@@ -4997,10 +4997,10 @@ REAL *h;
     while ((eindex < elen) && (findex < flen)) {
       if ((fnow > enow) == (fnow > -enow)) {
         Two_Sum(Q, enow, Qnew, hh);
-        enow = e[++eindex];
+        enow = ++eindex < elen ? e[eindex] : 0.0;
       } else {
         Two_Sum(Q, fnow, Qnew, hh);
-        fnow = f[++findex];
+        fnow = ++findex < flen ? f[findex] : 0.0;
       }
       Q = Qnew;
       if (hh != 0.0) {
@@ -5010,7 +5010,7 @@ REAL *h;
   }
   while (eindex < elen) {
     Two_Sum(Q, enow, Qnew, hh);
-    enow = e[++eindex];
+    enow = ++eindex < elen ? e[eindex] : 0.0;
     Q = Qnew;
     if (hh != 0.0) {
       h[hindex++] = hh;
@@ -5018,7 +5018,7 @@ REAL *h;
   }
   while (findex < flen) {
     Two_Sum(Q, fnow, Qnew, hh);
-    fnow = f[++findex];
+    fnow = ++findex < flen ? f[findex] : 0.0;
     Q = Qnew;
     if (hh != 0.0) {
       h[hindex++] = hh;
-- 
2.43.0


From 1ed510624fdc60efa1d67646dbe9527523d9752a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:46 +0000
Subject: [PATCH 30/40] fix: compute circumcenters, centroids and areas
 relative to a vertex, to keep precision far from the origin

---
 delynoi/src/models/polygon/Polygon.cpp  | 25 +++++++++++++++++--------
 delynoi/src/models/polygon/Triangle.cpp | 11 +++++++----
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index 53d54df..ff7bfe3 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -108,7 +108,10 @@ double Polygon::signedArea(std::vector<Point>& p) {
     int n = (int) this->points.size();
 
     for(int i=0;i<n;i++){
-        area += p[points[i]].getX()*p[points[(i+1)%n]].getY() - p[points[(i+1)%n]].getX()*p[points[i]].getY();
+        Point pi = p[points[i]] - p[points[0]];
+        Point pi1 = p[points[(i+1)%n]] - p[points[0]];
+
+        area += pi.getX()*pi1.getY() - pi1.getX()*pi.getY();
     }
 
     return 0.5*area;
@@ -128,9 +131,12 @@ Point Polygon::calculateCentroid(std::vector<Point>& p) {
     double partial_x = 0;
     double partial_y = 0;
 
+    //Far from the origin, the products of the coordinates leave no precision for the polygon itself
+    Point origin = p[points[0]];
+
     for(int i=0;i<n;i++){
-        Point pi = p[points[i]];
-        Point pi1 = p[points[(i+1)%n]];
+        Point pi = p[points[i]] - origin;
+        Point pi1 = p[points[(i+1)%n]] - origin;
 
         partial_x += (pi.getX() + pi1.getX())*(pi.getX()*pi1.getY() - pi1.getX()*pi.getY());
         partial_y += (pi.getY() + pi1.getY())*(pi.getX()*pi1.getY() - pi1.getX()*pi.getY());
@@ -140,7 +146,7 @@ Point Polygon::calculateCentroid(std::vector<Point>& p) {
     double cX = partial_x/(6*A);
     double cY = partial_y/(6*A);
 
-    return Point (cX,cY);
+    return Point (origin.getX() + cX, origin.getY() + cY);
 }
 
 bool Polygon::containsPoint(std::vector<Point>& p, Point point) {
@@ -228,14 +234,17 @@ int Polygon::numberOfSides() const{
 bool Polygon::isClockwise(std::vector<Point> &p) {
     int n = (int) points.size();
 
-    Point pI = p[points[0]];
-    Point pI1 = p[points[n-1]];
+    //Far from the origin, the products of the coordinates leave no precision for the polygon itself
+    Point origin = p[points[0]];
+
+    Point pI = p[points[0]] - origin;
+    Point pI1 = p[points[n-1]] - origin;
 
     double sum = (pI.getX() - pI1.getX())*(pI.getY() + pI1.getY());
 
     for(int i=0; i<n-1; i++){
-        pI1 = p[points[(i+1)%n]];
-        pI = p[points[i]];
+        pI1 = p[points[(i+1)%n]] - origin;
+        pI = p[points[i]] - origin;
 
         sum += (pI1.getX() - pI.getX())*(pI1.getY() + pI.getY());
     }
diff --git a/delynoi/src/models/polygon/Triangle.cpp b/delynoi/src/models/polygon/Triangle.cpp
index 3b4b29d..1c7222f 100644
--- a/delynoi/src/models/polygon/Triangle.cpp
+++ b/delynoi/src/models/polygon/Triangle.cpp
@@ -27,16 +27,19 @@ int Triangle::getCircumcenterIndex() {
 }
 
 Point Triangle::calculateCircumcenter(std::vector<Point>& p){
-    Point A = p[this->points[0]];
-    Point B = p[this->points[1]];
-    Point C = p[this->points[2]];
+    //Far from the origin, the squares of the coordinates leave no precision for the triangle itself
+    Point origin = p[this->points[0]];
+
+    Point A = p[this->points[0]] - origin;
+    Point B = p[this->points[1]] - origin;
+    Point C = p[this->points[2]] - origin;
 
     double d = 2*(A.getX()*(B.getY() - C.getY()) + B.getX()*(C.getY() - A.getY()) + C.getX()*(A.getY() - B.getY()));
 
     double uX = (A.squareNorm()*(B.getY() - C.getY()) + B.squareNorm()*(C.getY() - A.getY()) + C.squareNorm()*(A.getY() - B.getY()))/d;
     double uY = (A.squareNorm()*(C.getX() - B.getX()) + B.squareNorm()*(A.getX() - C.getX()) + C.squareNorm()*(B.getX() - A.getX()))/d;
 
-    return Point(uX,uY);
+    return Point(origin.getX() + uX, origin.getY() + uY);
 }
 
 int Triangle::nextEdge(int center, EdgeData edge, std::unordered_map<Key, int, KeyHasher>& edgeMap) {
-- 
2.43.0


From cf060d1f654a5d0345bcd3d11fb95e1eb3471eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 31/40] fix: take the rounding of the coordinates into account
 when looking for degenerate ears

---
 .../triangulation/EarTriangulationGenerator.cpp   | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/triangulation/EarTriangulationGenerator.cpp b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
index a932c84..440efa4 100644
--- a/delynoi/src/triangulation/EarTriangulationGenerator.cpp
+++ b/delynoi/src/triangulation/EarTriangulationGenerator.cpp
@@ -1,4 +1,5 @@
 #include <delynoi/triangulation/EarTriangulationGenerator.h>
+#include <limits>
 
 Triangle EarTriangulationGenerator::getEar(std::vector<Point>& points, std::vector<int> &pointList) {
     int size = (int) pointList.size();
@@ -15,14 +16,24 @@ Triangle EarTriangulationGenerator::getEar(std::vector<Point>& points, std::vect
     }
 
     //A vertex is an ear only if it is convex, this is, if it turns in the same direction as the whole polygon
-    double area = Polygon(pointList, points).getArea(points);
+    Polygon polygon(pointList, points);
+    double area = polygon.getArea(points);
+
+    //Rounding the coordinates moves the vertices, which can give some area to a triangle that has none
+    double magnitude = 0;
+    for(int v: pointList){
+        magnitude = std::max(magnitude, std::max(std::abs(points[v].getX()), std::abs(points[v].getY())));
+    }
+
+    double roundingArea = 4*std::numeric_limits<double>::epsilon()*magnitude*polygon.getMaxDistance(points);
+    double minArea = std::max(1e-12*std::abs(area), roundingArea);
 
     for(int i=0;i<size;i++){
         bool test = false;
         Triangle t ({pointList[(size+i-1)%size], pointList[i%size], pointList[(size+i+1)%size]}, points);
 
         //A vertex that is straight up to rounding is no ear either, its triangle would be degenerate
-        if(t.getArea(points)*area>1e-12*area*area){
+        if(t.getArea(points)*area>minArea*std::abs(area)){
             for(int j=0;j<size;j++){
                 if(!t.isVertex(pointList[j]) && t.containsPoint(points, points[pointList[j]])){
                     test = true;
-- 
2.43.0


From 335d637a3416ba839da282cf76a1f626961cdc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:53 +0000
Subject: [PATCH 32/40] fix: write the coordinates of region files with the
 configured number of decimals

---
 delynoi/src/models/Region.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index b163d32..eaf9939 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -1,4 +1,5 @@
 #include <delynoi/models/Region.h>
+#include <iomanip>
 
 Region::Region(std::vector<Point>& points) : Polygon(points){
     this->p = points;
@@ -204,15 +205,17 @@ void Region::printInFile(std::string fileName) {
     std::ofstream file;
     file.open(path, std::ios::out);
 
+    file << std::fixed << std::setprecision(DelynoiConfig::instance()->getPrecision());
+
     std::vector<Point> points = this->getRegionPoints();
 
     file << (points.size() + seedPoints.size()) << std::endl;
     for(int i=0;i<points.size();i++){
-        file << points[i].getString() << std::endl;
+        file << points[i].getX() << " " << points[i].getY() << std::endl;
     }
 
     for(int i=0;i<seedPoints.size();i++){
-        file << seedPoints[i].getString() << std::endl;
+        file << seedPoints[i].getX() << " " << seedPoints[i].getY() << std::endl;
     }
 
     std::vector<IndexSegment> segments;
-- 
2.43.0


From 487e9758d957cbc1bc426a6808cf2729d0cda82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 33/40] fix: lines that are not parallel meet in one point,
 also beyond the end points of the segments that give them

---
 delynoi/src/models/basic/Segment.cpp | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/delynoi/src/models/basic/Segment.cpp b/delynoi/src/models/basic/Segment.cpp
index 9a0157a..7ba7a45 100644
--- a/delynoi/src/models/basic/Segment.cpp
+++ b/delynoi/src/models/basic/Segment.cpp
@@ -78,27 +78,21 @@ bool Segment<T>::intersects(Point p1, Point p2, Point o1, Point o2, Point &inter
 
 template <class T>
 bool Segment<T>::intersectionInfinite(Point p1, Point p2, Point o1, Point o2, Point &inter) {
-    double tolerance = DelynoiConfig::instance()->getTolerance();
-
     double s1_x, s1_y, s2_x, s2_y;
     s1_x = p2.getX() - p1.getX();     s1_y = p2.getY() - p1.getY();
     s2_x = o2.getX() - o1.getX();     s2_y = o2.getY() - o1.getY();
 
-    double s, t;
-    s = (-s1_y * (p1.getX() - o1.getX()) + s1_x * (p1.getY() - o1.getY())) / (-s2_x * s1_y + s1_x * s2_y);
-    t = ( s2_x * (p1.getY() - o1.getY()) - s2_y * (p1.getX() - o1.getX())) / (-s2_x * s1_y + s1_x * s2_y);
-
-    if (t <= (1+tolerance) && t >= (0-tolerance)){
-        double i_x = p1.getX() + (t * s1_x);
-        double i_y = p1.getY() + (t * s1_y);
-
-        inter.setX(i_x);
-        inter.setY(i_y);
-
-        return true;
+    //Only parallel lines do not meet in one point, wherever on the lines that is
+    double det = -s2_x * s1_y + s1_x * s2_y;
+    if(std::abs(det) <= 1e-10 * std::sqrt((s1_x*s1_x + s1_y*s1_y)*(s2_x*s2_x + s2_y*s2_y))){
+        return false;
     }
 
-    return false;
+    double t = ( s2_x * (p1.getY() - o1.getY()) - s2_y * (p1.getX() - o1.getX())) / det;
+    inter.setX(p1.getX() + (t * s1_x));
+    inter.setY(p1.getY() + (t * s1_y));
+
+    return true;
 }
 
 template <class T>
-- 
2.43.0


From 262fcfd1ebdfeb89b905e41335393bcc38255113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:02 +0000
Subject: [PATCH 34/40] fix: an outline that is rejected leaves the polygon or
 region it was given to as it was

---
 delynoi/src/models/Region.cpp          | 2 +-
 delynoi/src/models/polygon/Polygon.cpp | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index eaf9939..575b6f7 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -6,8 +6,8 @@ Region::Region(std::vector<Point>& points) : Polygon(points){
 }
 
 void Region::mutate(std::vector<Point> &points) {
-    this->p = points;
     Polygon::mutate(points);
+    this->p = points;
     this->clean();
 }
 
diff --git a/delynoi/src/models/polygon/Polygon.cpp b/delynoi/src/models/polygon/Polygon.cpp
index ff7bfe3..a00da30 100644
--- a/delynoi/src/models/polygon/Polygon.cpp
+++ b/delynoi/src/models/polygon/Polygon.cpp
@@ -19,10 +19,14 @@ Polygon::Polygon(std::vector<int>& points, std::vector<Point>& p) {
 }
 
 void Polygon::mutate(std::vector<Point> &p) {
+    //An outline that is rejected leaves the polygon as it was
+    std::vector<int> previous = this->points;
+
     this->points.clear();
     delynoi_utilities::TrivialIndexVector(this->points,p.size());
 
     if(isSelfIntersecting(p)){
+        this->points = previous;
         throw std::invalid_argument("Self intersecting polygons are not supported");
     }
 
-- 
2.43.0


From bb54596df67adf17fb1ef87225273667e268a7e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:35 +0000
Subject: [PATCH 35/40] fix: a file that ends before everything it announces is
 reported instead of read beyond its end

---
 delynoi/include/delynoi/models/Mesh.h       | 20 +++++++++++++-------
 delynoi/src/models/Region.cpp               | 12 ++++++------
 lib/utilities/include/utilities/utilities.h |  1 +
 lib/utilities/src/utilities.cpp             | 10 ++++++++++
 4 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index f801d76..a9bea35 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -166,29 +166,30 @@ void Mesh<T>::createFromFile(std::string fileName, int startIndex) {
 
 template <typename T>
 void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
-    std::string line;
-    std::getline(infile, line);
+    std::string line = utilities::readLine(infile);
     int numberMeshPoints = std::atoi(line.c_str());
     std::vector<int> pointIndexes;
     for (int i = 0; i < numberMeshPoints; ++i) {
-        std::getline(infile, line);
+        line = utilities::readLine(infile);
         std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
 
-        Point newPoint(std::atof(splittedLine[0].c_str()), std::atof(splittedLine[1].c_str()));
+        Point newPoint(std::atof(splittedLine.at(0).c_str()), std::atof(splittedLine.at(1).c_str()));
         pointIndexes.push_back(this->points.push_back(newPoint));
     }
 
-    std::getline(infile, line);
+    line = utilities::readLine(infile);
     int numberMeshPolygons = std::atoi(line.c_str());
+    line.clear();
     std::getline(infile, line);
 
     //The meshes printed by this class include their edges (two indexes per line) before the polygons
     if(utilities::splitBySpaces(line).size()==2){
         for (int i = 0; i < numberMeshPolygons; ++i) {
-            std::getline(infile, line);
+            line = utilities::readLine(infile);
         }
 
         numberMeshPolygons = std::atoi(line.c_str());
+        line.clear();
         std::getline(infile, line);
     }
 
@@ -197,7 +198,11 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
 
         std::vector<int> polygonPoints;
         for (int j = 1; j < splittedLine.size(); ++j) {
-            polygonPoints.push_back(pointIndexes[std::atoi(splittedLine[j].c_str()) - startIndex]);
+            polygonPoints.push_back(pointIndexes.at(std::atoi(splittedLine[j].c_str()) - startIndex));
+        }
+
+        if(polygonPoints.size()<3 || (int) polygonPoints.size()<std::atoi(splittedLine[0].c_str())){
+            throw std::runtime_error("The file ends before everything it announces.");
         }
 
         T newPolygon(polygonPoints, this->points.getList());
@@ -210,6 +215,7 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
             this->pointMap->insert(this->points[s.getFirst()], i);
         }
 
+        line.clear();
         std::getline(infile, line);
     }
 }
diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index 575b6f7..ae1c683 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -102,19 +102,19 @@ void Region::addSeedsFromFile(std::string fileName) {
     std::ifstream infile;
     infile = utilities::openFile(fileName);
 
-    std::string line;
-    std::getline(infile, line);
+    std::vector<Point> newSeeds;
+    std::string line = utilities::readLine(infile);
     int numberMeshPoints = std::atoi(line.c_str());
     for (int i = 0; i < numberMeshPoints; ++i) {
-        std::getline(infile, line);
+        line = utilities::readLine(infile);
         std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
 
-        Point newPoint(std::atof(splittedLine[0].c_str()), std::atof(splittedLine[1].c_str()));
-        this->seedPoints.push_back(newPoint);
+        Point newPoint(std::atof(splittedLine.at(0).c_str()), std::atof(splittedLine.at(1).c_str()));
+        newSeeds.push_back(newPoint);
     }
 
     infile.close();
-    this->clean();
+    this->addSeedPoints(newSeeds);
 }
 
 BoundingBox Region::getBox() {
diff --git a/lib/utilities/include/utilities/utilities.h b/lib/utilities/include/utilities/utilities.h
index dd9a460..50fdd55 100644
--- a/lib/utilities/include/utilities/utilities.h
+++ b/lib/utilities/include/utilities/utilities.h
@@ -41,6 +41,7 @@ namespace utilities{
     extern std::vector<std::string> split(std::string s, const std::regex regex);
     extern std::vector<std::string> splitBySpaces(std::string s);
     extern std::ifstream openFile(std::string fileName);
+    extern std::string readLine(std::ifstream& file);
 }
 
 #endif 
diff --git a/lib/utilities/src/utilities.cpp b/lib/utilities/src/utilities.cpp
index 1647c8f..9b8f3fa 100644
--- a/lib/utilities/src/utilities.cpp
+++ b/lib/utilities/src/utilities.cpp
@@ -95,6 +95,16 @@ namespace utilities {
 
         return infile;
     }
+
+    std::string readLine(std::ifstream& file){
+        std::string line;
+
+        if(!std::getline(file, line)){
+            throw std::runtime_error("The file ends before everything it announces.");
+        }
+
+        return line;
+    }
 }
 
 
-- 
2.43.0


From f0459ad4a85e31d30343d0ecc2665d5cfedfcf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:09 +0000
Subject: [PATCH 36/40] fix: the edges of a triangulation no longer depend on
 where in memory its triangles are

---
 .../src/voronoi/TriangleDelaunayGenerator.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
index 00662bb..cfa2638 100644
--- a/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
+++ b/delynoi/src/voronoi/TriangleDelaunayGenerator.cpp
@@ -96,12 +96,21 @@ void TriangleDelaunayGenerator::callTriangle(std::vector<Point> &point_list, cha
         }
     }
 
+    std::unordered_map<Key,int,KeyHasher> edgeMarkers;
     for(int i=0;i<out.numberofedges;i++) {
-        EdgeData data(out.edgelist[2*i], out.edgelist[2*i+1]);
-        this->edges.push_back(data);
-        edgeMap.insert(std::make_pair(Key(out.edgelist[2*i], out.edgelist[2*i+1]),i));
-        this->points[out.edgelist[2*i]].setEdge(i, out.edgemarkerlist[i]);
-        this->points[out.edgelist[2*i+1]].setEdge(i, out.edgemarkerlist[i]);
+        edgeMarkers[Key(out.edgelist[2*i], out.edgelist[2*i+1])] = out.edgemarkerlist[i];
+    }
+
+    //Which edge of two triangles comes first in Triangle's own list, and its direction, depend on where in memory the
+    //triangles are; the order in which the triangles use them does not
+    for(int i=0;i<3*out.numberoftriangles;i++) {
+        int first = out.trianglelist[i], second = out.trianglelist[i%3==2? i-2 : i+1];
+        Key key (first, second);
+        if(!edgeMap.insert(std::make_pair(key, (int) this->edges.size())).second) continue;
+
+        this->points[first].setEdge((int) this->edges.size(), edgeMarkers[key]);
+        this->points[second].setEdge((int) this->edges.size(), edgeMarkers[key]);
+        this->edges.push_back(EdgeData(first, second));
     }
 
     for(int i=0;i<out.numberoftriangles;i++){
-- 
2.43.0


From 9bf92e7cc80a1aceb3f7625a9713d5f0a2aa281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:18 +0000
Subject: [PATCH 37/40] fix: a mesh is left as it was when the file it reads
 ends before everything it announces

---
 delynoi/include/delynoi/models/Mesh.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index a9bea35..3b9f5ae 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -166,6 +166,10 @@ void Mesh<T>::createFromFile(std::string fileName, int startIndex) {
 
 template <typename T>
 void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
+    //The mesh changes only once everything was read: a file that ends early leaves it as it was
+    UniqueList<Point> newPoints (this->points);
+    std::vector<T> newPolygons;
+
     std::string line = utilities::readLine(infile);
     int numberMeshPoints = std::atoi(line.c_str());
     std::vector<int> pointIndexes;
@@ -174,7 +178,7 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
         std::vector<std::string> splittedLine = utilities::splitBySpaces(line);
 
         Point newPoint(std::atof(splittedLine.at(0).c_str()), std::atof(splittedLine.at(1).c_str()));
-        pointIndexes.push_back(this->points.push_back(newPoint));
+        pointIndexes.push_back(newPoints.push_back(newPoint));
     }
 
     line = utilities::readLine(infile);
@@ -205,18 +209,22 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
             throw std::runtime_error("The file ends before everything it announces.");
         }
 
-        T newPolygon(polygonPoints, this->points.getList());
-        this->polygons.push_back(newPolygon);
+        newPolygons.push_back(T(polygonPoints, newPoints.getList()));
+
+        line.clear();
+        std::getline(infile, line);
+    }
+
+    this->points = newPoints;
+    for (int i = 0; i < newPolygons.size(); ++i) {
+        this->polygons.push_back(newPolygons[i]);
         std::vector<IndexSegment> segments;
-        newPolygon.getSegments(segments);
+        newPolygons[i].getSegments(segments);
 
         for (IndexSegment s: segments){
             this->edges->insert(s, i);
             this->pointMap->insert(this->points[s.getFirst()], i);
         }
-
-        line.clear();
-        std::getline(infile, line);
     }
 }
 
-- 
2.43.0


From d4dd76181c5cd68d98512966202a6a0de1e2f4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:18 +0000
Subject: [PATCH 38/40] fix: the neighbours read into a mesh that has elements
 already are numbered after them

---
 delynoi/include/delynoi/models/Mesh.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/delynoi/include/delynoi/models/Mesh.h b/delynoi/include/delynoi/models/Mesh.h
index 3b9f5ae..e7543a3 100644
--- a/delynoi/include/delynoi/models/Mesh.h
+++ b/delynoi/include/delynoi/models/Mesh.h
@@ -216,14 +216,15 @@ void Mesh<T>::createFromStream(std::ifstream &infile, int startIndex) {
     }
 
     this->points = newPoints;
+    int firstIndex = (int) this->polygons.size();
     for (int i = 0; i < newPolygons.size(); ++i) {
         this->polygons.push_back(newPolygons[i]);
         std::vector<IndexSegment> segments;
         newPolygons[i].getSegments(segments);
 
         for (IndexSegment s: segments){
-            this->edges->insert(s, i);
-            this->pointMap->insert(this->points[s.getFirst()], i);
+            this->edges->insert(s, firstIndex + i);
+            this->pointMap->insert(this->points[s.getFirst()], firstIndex + i);
         }
     }
 }
-- 
2.43.0


From d67ba09454d7d3cffb14c3c029c1dcc3545a2806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:58 +0000
Subject: [PATCH 39/40] fix: a hole that covers the whole region is refused
 also when its center lies in the region

---
 delynoi/src/models/Region.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/delynoi/src/models/Region.cpp b/delynoi/src/models/Region.cpp
index ae1c683..b70d8f8 100644
--- a/delynoi/src/models/Region.cpp
+++ b/delynoi/src/models/Region.cpp
@@ -74,7 +74,8 @@ void Region::addHole(Hole h) {
     }else{
         //Two cases, hole is completely inside or completely outside, just ignore holes outside
 
-        if(Polygon::containsPoint(this->p, h.getCenter())){
+        //A hole that covers the whole region leaves nothing, wherever its center is
+        if(!solution.empty() && Polygon::containsPoint(this->p, h.getCenter())){
             this->holes.push_back(h);
             this->clean();
         }else{
-- 
2.43.0


From fca9e558c8ac09434aaac2eba766bdcb55bc73d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:51 +0000
Subject: [PATCH 40/40] fix: a circumcenter on the border of a Voronoi mesh is
 in the boundary

---
 delynoi/src/voronoi/DelaunayToVoronoi.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/delynoi/src/voronoi/DelaunayToVoronoi.cpp b/delynoi/src/voronoi/DelaunayToVoronoi.cpp
index 89c199e..07d2d78 100644
--- a/delynoi/src/voronoi/DelaunayToVoronoi.cpp
+++ b/delynoi/src/voronoi/DelaunayToVoronoi.cpp
@@ -114,6 +114,9 @@ int DelaunayToVoronoi::getCircumcenter(DelaunayInfo& del, int triangle, int edge
 
         int circumcenterIndex = del.circumcenters.push_back(middlePoint);
 
+        //A circumcenter that lies on the border is the same point, and is in the boundary too
+        del.circumcenters[circumcenterIndex].setBoundary();
+
         return circumcenterIndex;
     }
 }
-- 
2.43.0

