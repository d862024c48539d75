From 77a2a4adaeb103141ee2dd7e221e62d6c3d82f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:58 +0000
Subject: [PATCH 001/117] fix: report read errors when loading edge lists, GML,
 Pajek, and GraphML files

---
 include/aleph/topology/io/EdgeLists.hh | 3 +++
 include/aleph/topology/io/GML.hh       | 3 +++
 include/aleph/topology/io/GraphML.hh   | 3 ++-
 include/aleph/topology/io/Pajek.hh     | 3 +++
 4 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/EdgeLists.hh b/include/aleph/topology/io/EdgeLists.hh
index 6a1e471..9647614 100644
--- a/include/aleph/topology/io/EdgeLists.hh
+++ b/include/aleph/topology/io/EdgeLists.hh
@@ -120,6 +120,9 @@ public:
         throw std::runtime_error(" Format error: not enough tokens to continue parsing" );
     }
 
+    if( in.bad() )
+      throw std::runtime_error( "Unable to read input file" );
+
     // Using a set has the advantage of ensuring that duplicate
     // simplices are deleted automatically. A duplicate simplex
     // is usually created by the input data set itself. It must
diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index 0938c24..b80a0ec 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -256,6 +256,9 @@ public:
       }
     }
 
+    if( in.bad() )
+      throw std::runtime_error( "Unable to read input file" );
+
     // Creates nodes (vertices) ----------------------------------------
 
     std::set<std::string> nodeIDs;
diff --git a/include/aleph/topology/io/GraphML.hh b/include/aleph/topology/io/GraphML.hh
index 0225221..c53d734 100644
--- a/include/aleph/topology/io/GraphML.hh
+++ b/include/aleph/topology/io/GraphML.hh
@@ -97,7 +97,8 @@ public:
       using namespace tinyxml2;
 
       XMLDocument document;
-      document.LoadFile( filename.c_str() );
+      if( document.LoadFile( filename.c_str() ) != XML_SUCCESS )
+        throw std::runtime_error( "Unable to read input file" );
 
       auto root        = document.FirstChild();
       auto graphml     = root->NextSiblingElement( "graphml" );
diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index cb1d624..b49a7ba 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -160,6 +160,9 @@ public:
       }
     }
 
+    if( in.bad() )
+      throw std::runtime_error( "Unable to read input file" );
+
     K = SimplicialComplex( simplices.begin(), simplices.end() );
   }
 
-- 
2.43.0


From e68f710f84353348bb48500a76ced6096cc826fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:58 +0000
Subject: [PATCH 002/117] fix: forget node labels of previous file in edge list
 reader

---
 include/aleph/topology/io/EdgeLists.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/aleph/topology/io/EdgeLists.hh b/include/aleph/topology/io/EdgeLists.hh
index 9647614..9e9243f 100644
--- a/include/aleph/topology/io/EdgeLists.hh
+++ b/include/aleph/topology/io/EdgeLists.hh
@@ -67,6 +67,10 @@ public:
     std::set<Simplex> vertices;
     std::vector<Simplex> edges;
 
+    // Labels of a previously-read file must not be re-used because they
+    // would be mapped to indices of *other* labels.
+    _nodeLabels.clear();
+
     std::size_t lastID = 0;
 
     while( in )
-- 
2.43.0


From 30920b2af68c78bc2152dcee91d7f0409c4c3e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:58 +0000
Subject: [PATCH 003/117] fix: read signed values and exponents in GML files

---
 include/aleph/topology/io/GML.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index b80a0ec..9b78de0 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -140,7 +140,7 @@ public:
     Edge edge;
 
     std::regex reAttribute = std::regex( "([_\\|[:alpha:]]+)[[:space:]]*.*" );
-    std::regex reKeyValue  = std::regex( "([_\\|[:alpha:]]+)[[:space:]]+([[:alnum:]\\.]+)" );
+    std::regex reKeyValue  = std::regex( "([_\\|[:alpha:]]+)[[:space:]]+([-+[:alnum:]\\.]+)" );
     std::regex reLabel     = std::regex( "(label)[[:space:]]+\"([^\"]+)\"" );
 
     while( std::getline( in, line ) )
-- 
2.43.0


From cb48f1b9b1dda71b3c6391c1c92459ef0727b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:58 +0000
Subject: [PATCH 004/117] fix: reject GML files with unbalanced brackets

---
 include/aleph/topology/io/GML.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index 9b78de0..169a774 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -187,6 +187,9 @@ public:
       // Closing a new level
       else if( line == "]" )
       {
+        if( currentLevel.empty() )
+          throw std::runtime_error( "Encountered unexpected closing bracket" );
+
         if( currentLevel.top() == "node" )
           _nodes.push_back( node );
         else if( currentLevel.top() == "edge" )
@@ -259,6 +262,9 @@ public:
     if( in.bad() )
       throw std::runtime_error( "Unable to read input file" );
 
+    if( !currentLevel.empty() || !lastLevel.empty() )
+      throw std::runtime_error( "Encountered unclosed level" );
+
     // Creates nodes (vertices) ----------------------------------------
 
     std::set<std::string> nodeIDs;
-- 
2.43.0


From 3a5629fa4be179bf6b4beafc61f098f1675d3d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:58 +0000
Subject: [PATCH 005/117] fix: do not access first character of empty line in
 Pajek reader

---
 include/aleph/topology/io/Pajek.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index b49a7ba..fff08a0 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -72,8 +72,8 @@ public:
       // white space characters in order to simplify parsing.
       line = trim( line );
 
-      // Skip comments
-      if( line.front() == '%' )
+      // Skip comments and empty lines
+      if( line.empty() || line.front() == '%' )
         continue;
 
       // 1st case: Found a keyword. This changes the parser mode and
-- 
2.43.0


From 4e87731bd75826c13893fb5de6b9db917b551950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:58 +0000
Subject: [PATCH 006/117] fix: check and create Pajek vertices for files
 without edges

---
 include/aleph/topology/io/Pajek.hh | 35 ++++++++++++++++++------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index fff08a0..53e18bb 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -63,6 +63,24 @@ public:
     std::vector<Simplex> simplices;
     std::size_t numVertices = 0;
 
+    // Check if there are sufficiently many vertices created. If
+    // not, create all of the manually. Note that this procedure
+    // merely works in cases where vertices do not have a label,
+    // because this case permits leaving out the IDs in the data
+    // file. If vertices have labels their number must match the
+    // one specified in the file. Everything else is an error.
+    auto createVertices = [&simplices, &numVertices]
+    {
+      if( simplices.empty() )
+      {
+        for( std::size_t i = 0; i < numVertices; i++ )
+          simplices.push_back( Simplex( VertexType(i+1) ) );
+      }
+
+      if( simplices.size() < numVertices )
+        throw std::runtime_error( "Missing at least one vertex specification" );
+    };
+
     std::string line;
 
     while( std::getline( in, line ) )
@@ -120,20 +138,7 @@ public:
       // 2nd case: Proceed according to parser mode: edges
       else if( mode == Mode::Edges )
       {
-        // Check if there are sufficiently many vertices created. If
-        // not, create all of the manually. Note that this procedure
-        // merely works in cases where vertices do not have a label,
-        // because this case permits leaving out the IDs in the data
-        // file. If vertices have labels their number must match the
-        // one specified in the file. Everything else is an error.
-        if( simplices.empty() )
-        {
-          for( std::size_t i = 0; i < numVertices; i++ )
-            simplices.push_back( Simplex( VertexType(i+1) ) );
-        }
-
-        if( simplices.size() < numVertices )
-          throw std::runtime_error( "Missing at least one vertex specification" );
+        createVertices();
 
         if( !std::regex_match( line, matches, reEdge ) )
           throw std::runtime_error( "Unable to parse edge identifier" );
@@ -163,6 +168,8 @@ public:
     if( in.bad() )
       throw std::runtime_error( "Unable to read input file" );
 
+    createVertices();
+
     K = SimplicialComplex( simplices.begin(), simplices.end() );
   }
 
-- 
2.43.0


From e5a0445e88b8222e968944ec7968dc77cfcdb3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:58 +0000
Subject: [PATCH 007/117] fix: do not dereference missing elements and
 attributes in GraphML reader

---
 include/aleph/topology/io/GraphML.hh | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/io/GraphML.hh b/include/aleph/topology/io/GraphML.hh
index c53d734..92db207 100644
--- a/include/aleph/topology/io/GraphML.hh
+++ b/include/aleph/topology/io/GraphML.hh
@@ -100,8 +100,9 @@ public:
       if( document.LoadFile( filename.c_str() ) != XML_SUCCESS )
         throw std::runtime_error( "Unable to read input file" );
 
-      auto root        = document.FirstChild();
-      auto graphml     = root->NextSiblingElement( "graphml" );
+      auto graphml     = document.FirstChildElement( "graphml" );
+      if( !graphml )
+        throw std::runtime_error( "GraphML file has to contain a root element" );
 
       // 1. Read optional information about keys in the graph ----------
 
@@ -113,6 +114,9 @@ public:
           auto name = key->Attribute( "attr.name" );
           auto type = key->Attribute( "for" );
 
+          if( !id || !name || !type )
+            throw std::runtime_error( "Key element must specify ID, name, and type" );
+
           // It makes sense to switch these two items because we use the
           // name, e.g. 'weight', to look up the ID, e.g. 'id0'.
           if( std::string( type ) == "node" )
@@ -387,7 +391,10 @@ private:
           auto key   = child->Attribute( "key" );
           auto value = child->GetText();
 
-          dict[key] = value;
+          if( !key )
+            throw std::runtime_error( "Data element must specify key" );
+
+          dict[key] = value ? value : "";
         }
 
         child = child->NextSiblingElement();
-- 
2.43.0


From f059b56838150d0e52a4d824dbed8275e7896743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:27:09 +0000
Subject: [PATCH 008/117] fix: reject incomplete lexicographic triangulations
 and keep the result on failure

A block that is not closed at the end of the file was dropped silently.
Lines outside of blocks produced empty complexes.  Unexpected characters
between two simplices made the parser loop forever.  A read error passed
for the end of the file, and the result vector was cleared even if the
load failed.
---
 .../topology/io/LexicographicTriangulation.hh | 24 ++++++++++++++-----
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/aleph/topology/io/LexicographicTriangulation.hh b/include/aleph/topology/io/LexicographicTriangulation.hh
index 22c2ce4..180f7f6 100644
--- a/include/aleph/topology/io/LexicographicTriangulation.hh
+++ b/include/aleph/topology/io/LexicographicTriangulation.hh
@@ -67,8 +67,7 @@ public:
 
     Mode mode = Mode::ParsingBlocks;
 
-    result.clear();
-    result.shrink_to_fit();
+    std::vector<SimplicialComplex> complexes;
 
     while( std::getline( in, line ) )
     {
@@ -96,16 +95,23 @@ public:
         block = trim( block );
       }
 
-      if( isBlockFinished( block ) )
+      if( mode == Mode::ParsingList && !block.empty() && isBlockFinished( block ) )
       {
-        result.emplace_back( parseBlock<SimplicialComplex>( block ) );
+        complexes.emplace_back( parseBlock<SimplicialComplex>( block ) );
         mode      = Mode::ParsingBlocks;
 
         block.clear();
       }
     }
 
-    result.shrink_to_fit();
+    if( in.bad() )
+      throw std::runtime_error( "Unable to read input file" );
+
+    if( mode != Mode::ParsingBlocks )
+      throw std::runtime_error( "Format error; unexpected end of file inside a block" );
+
+    complexes.shrink_to_fit();
+    result.swap( complexes );
   }
 
 private:
@@ -189,9 +195,15 @@ private:
 
       // Just skip all valid characters and try to directly proceed with
       // the parsing process.
-      if( *it == ',' || std::isspace( *it ) )
+      if( it == block.end() )
+        break;
+      else if( *it == ',' || std::isspace( *it ) )
         ++it;
 
+      // Format error: only separators may appear between two simplices
+      else if( !parsingSimplex && *it != '[' && *it != ']' )
+        return {};
+
       // Look ahead until the next "]" appears. Tokenize the list of
       // vertices in between.
       if( parsingSimplex )
-- 
2.43.0


From e945c2d83d157dadbcee427010d8bf2e987fd105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:02 +0000
Subject: [PATCH 009/117] fix: reject incomplete PLY files

An incomplete header or a header without elements stopped the program by
an assertion.  Faces with repeated or undeclared vertices read outside of
the simplex.  Binary files wrote past a stack variable and gave an empty
complex.  Read errors were ignored and property descriptors were used
uninitialised.
---
 include/aleph/topology/io/PLY.hh | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/include/aleph/topology/io/PLY.hh b/include/aleph/topology/io/PLY.hh
index 0fa3f85..c5a9da9 100644
--- a/include/aleph/topology/io/PLY.hh
+++ b/include/aleph/topology/io/PLY.hh
@@ -134,14 +134,14 @@ public:
   struct PropertyDescriptor
   {
     std::string name;     // Property name (or list name)
-    unsigned index;       // Offset of attribute for ASCII data
-    unsigned bytesOffset; // Offset of attribute for binary data
-    unsigned bytes;       // Number of bytes
+    unsigned index       = 0; // Offset of attribute for ASCII data
+    unsigned bytesOffset = 0; // Offset of attribute for binary data
+    unsigned bytes       = 0; // Number of bytes
 
     // Only used for lists: Here, both the length parameter and the
     // entry parameter of a list usually have different lengths.
-    unsigned bytesListSize;
-    unsigned bytesListEntry;
+    unsigned bytesListSize  = 0;
+    unsigned bytesListEntry = 0;
   };
 
   template <class SimplicialComplex> void operator()( const std::string& filename, SimplicialComplex& K )
@@ -323,8 +323,16 @@ public:
     }
     while( !headerParsed && in );
 
-    assert( numVertices > 0 );
-    assert( numFaces    > 0 );
+    if( !headerParsed )
+      throw std::runtime_error( "Format error: Expecting \"end_header\"" );
+
+    if( numVertices == 0 || numFaces == 0 )
+      throw std::runtime_error( "Format error: Expecting vertices and faces" );
+
+    if( parseBinary )
+      throw std::runtime_error( "Binary file parsing is not yet supported" );
+
+    _coordinates.clear();
 
     using Simplex = typename SimplicialComplex::ValueType;
 
@@ -346,6 +354,9 @@ public:
                                              properties );
     }
 
+    if( in.bad() )
+      throw std::runtime_error( "Unable to read input file" );
+
     in.close();
 
     K = SimplicialComplex( simplices.begin(), simplices.end() );
@@ -516,6 +527,9 @@ private:
 
         Simplex triangle( {i1,i2,i3} );
 
+        if( triangle.dimension() != 2 || std::max( i1, std::max( i2, i3 ) ) >= numVertices )
+          throw std::runtime_error( "Format error: Expecting three different vertices for each face" );
+
         // Create edges ----------------------------------------------
 
         for( auto itEdge = triangle.begin_boundary();
-- 
2.43.0


From fed17382e5c9676ba341094d2d938083550d7d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:02 +0000
Subject: [PATCH 010/117] fix: reject incomplete VTK files

A header that could not be parsed was ignored silently, and the numbers
of coordinates and values were not compared with the declared ones.  Read
errors were ignored.  The size of unknown data types was uninitialised,
names and types with underscores were not recognised, and the scalars of
an earlier file could be reported for a later one.
---
 include/aleph/topology/io/VTK.hh | 41 +++++++++++++++++++++++++-------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/include/aleph/topology/io/VTK.hh b/include/aleph/topology/io/VTK.hh
index b064bc5..b873d39 100644
--- a/include/aleph/topology/io/VTK.hh
+++ b/include/aleph/topology/io/VTK.hh
@@ -108,13 +108,17 @@ public:
 
     // Parse header first ----------------------------------------------
 
-    std::size_t nx, ny, nz,
-                n,
-                s;
+    std::size_t nx = 0, ny = 0, nz = 0,
+                n  = 0,
+                s  = 0;
+
+    _dataTypeSize = 0;
+    _scalarsName.clear();
+    _scalarsType.clear();
 
     bool parsedHeader = this->parseHeader( in, nx, ny, nz, n, s );
     if( !parsedHeader )
-      return;
+      throw std::runtime_error( "Format error: unable to parse header" );
 
     // This stores the data type size and makes it possible for a client
     // to look it up and compare it to the requested size of the complex
@@ -128,7 +132,7 @@ public:
     // attributes are supported.
 
     std::regex rePointData( "POINT_DATA[[:space:]]+([[:digit:]]+)" );
-    std::regex reScalars( "SCALARS[[:space:]]+([[:alnum:]]+)[[:space:]]+([[:alnum:]]+)[[:space:]]*([[:digit:]]*)" );
+    std::regex reScalars( "SCALARS[[:space:]]+([^[:space:]]+)[[:space:]]+([^[:space:]]+)[[:space:]]*([[:digit:]]*)" );
     std::regex reLookupTable( "LOOKUP_TABLE[[:space:]]+([[:alnum:]]+)" );
 
     std::vector<DataType> coordinates;
@@ -137,6 +141,11 @@ public:
     while( std::getline( in, line ) )
     {
       line         = trim( line );
+
+      // Skip empty lines
+      if( line.empty() )
+        continue;
+
       auto strings = split( line );
 
       for( auto&& coordinate : strings )
@@ -154,6 +163,12 @@ public:
 
       while( std::getline( in, line ) )
       {
+        line = trim( line );
+
+        // Skip empty lines
+        if( line.empty() )
+          continue;
+
         if( std::regex_match( line, matches, rePointData ) )
         {
           auto sn = matches[1];
@@ -180,7 +195,6 @@ public:
         }
         else
         {
-          line         = trim( line );
           auto strings = split( line );
 
           for( auto&& value : strings )
@@ -189,6 +203,17 @@ public:
       }
     }
 
+    if( in.bad() )
+      throw std::runtime_error( "Unable to read input file" );
+
+    if( coordinates.size() != n*3 || values.size() != n )
+      throw std::runtime_error( "Format error: number of coordinates or values does not match number of points" );
+
+    // Check the dimensions step by step because their product may not
+    // be representable.
+    if( nx == 0 || ny == 0 || nz == 0 || n % nx != 0 || n / nx % ny != 0 || n / nx / ny != nz )
+      throw std::runtime_error( "Format error: dimensions do not match number of points" );
+
     // Create topology -------------------------------------------------
     //
     // Notice that this class only adds 0-simplices and 1-simplices to
@@ -391,7 +416,7 @@ private:
     y = std::size_t( std::stoull( sy ) );
     z = std::size_t( std::stoull( sz ) );
 
-    std::regex rePoints( "POINTS[[:space:]]+([[:digit:]]+)[[:space:]]+([[:alpha:]]+)" );
+    std::regex rePoints( "POINTS[[:space:]]+([[:digit:]]+)[[:space:]]+([[:alpha:]_]+)" );
     if( !std::regex_match( points, matches, rePoints ) )
       return false;
 
@@ -418,7 +443,7 @@ private:
       s = sizeof(unsigned short);
     else if( st == "char" )
       s = sizeof(char);
-    else if( st == "unsigned char" )
+    else if( st == "unsigned_char" )
       s = sizeof(unsigned char);
     else if( st == "bit" )
       s = sizeof(bool);
-- 
2.43.0


From 1ef108c0018d84374d58270953a47e83282c1d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:34 +0000
Subject: [PATCH 011/117] fix: read matrices row by row

Comments and empty lines were promised but broke the matrix readers.  A
cut-off matrix could pass for a smaller one because only the number of
values was checked, an empty file made the matrix reader run out of
bounds, and read errors passed for the end of the file.
---
 include/aleph/topology/io/AdjacencyMatrix.hh  | 48 +++++++++++------
 .../topology/io/BipartiteAdjacencyMatrix.hh   | 48 ++++++++++++-----
 include/aleph/topology/io/Matrix.hh           | 53 ++++++++++++-------
 3 files changed, 104 insertions(+), 45 deletions(-)

diff --git a/include/aleph/topology/io/AdjacencyMatrix.hh b/include/aleph/topology/io/AdjacencyMatrix.hh
index 3ef1406..96746d9 100644
--- a/include/aleph/topology/io/AdjacencyMatrix.hh
+++ b/include/aleph/topology/io/AdjacencyMatrix.hh
@@ -8,6 +8,8 @@
 #include <algorithm>
 #include <fstream>
 #include <istream>
+#include <sstream>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <vector>
@@ -118,8 +120,8 @@ public:
     using DataType   = typename Simplex::DataType;
     using VertexType = typename Simplex::VertexType;
 
-    auto position    = in.tellg();
-    std::size_t n    = 0;
+    std::size_t n       = 0;
+    std::size_t columns = 0;
 
     // An 'unrolled' version of all edge weights that can be read from
     // the file. They are supposed to correspond to a matrix with some
@@ -132,31 +134,47 @@ public:
       std::string line;
       while( std::getline( in, line ) )
       {
+        line = trim( line );
+
         // Skip empty lines and comments as promised
         if( line.empty() || line.front() == '#' )
           continue;
 
+        std::size_t count = 0;
+        std::istringstream converter( line );
+
+        while( !converter.eof() )
+        {
+          DataType value = DataType();
+          converter >> value;
+
+          if( !converter )
+            throw std::runtime_error( "Format error: unable to convert value" );
+
+          values.push_back( value );
+          ++count;
+        }
+
+        if( n == 0 )
+          columns = count;
+        else if( columns != count )
+          throw std::runtime_error( "Format error: number of columns must not vary" );
+
         ++n;
       }
 
-      in.clear();
-      in.seekg( position );
+      if( in.bad() )
+        throw std::runtime_error( "Unable to read input file" );
     }
 
-    // FIXME: this will not work in case comments are part of the file.
-    // Drat---should probably rewrite it.
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
-               std::back_inserter( values ) );
-
-    // We cannot fill an empty simplicial complex. It might be useful to
-    // throw an error here, though.
+    // We cannot fill an empty simplicial complex
     if( values.empty() )
-      return;
+      throw std::runtime_error( "Format error: matrix does not contain any values" );
 
-    _dimension = n;
+    if( columns != n )
+      throw std::runtime_error( "Format error: matrix must be square" );
 
-    if( values.size() != _dimension * _dimension )
-      throw std::runtime_error( "Format error: number of columns must not vary" );
+    _dimension = n;
 
     std::vector<Simplex> simplices;
 
diff --git a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
index 46b784e..0c3f499 100644
--- a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
@@ -8,6 +8,8 @@
 #include <algorithm>
 #include <fstream>
 #include <istream>
+#include <sstream>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <vector>
@@ -72,8 +74,8 @@ public:
     using DataType   = typename Simplex::DataType;
     using VertexType = typename Simplex::VertexType;
 
-    auto position      = in.tellg();
     std::size_t height = 0;
+    std::size_t width  = 0;
 
     // An 'unrolled' version of all edge weights that can be read from
     // the file. They are supposed to correspond to a matrix with some
@@ -85,24 +87,46 @@ public:
     {
       std::string line;
       while( std::getline( in, line ) )
+      {
+        line = trim( line );
+
+        // Skip empty lines and comments as promised
+        if( line.empty() || line.front() == '#' )
+          continue;
+
+        std::size_t columns = 0;
+        std::istringstream converter( line );
+
+        while( !converter.eof() )
+        {
+          DataType value = DataType();
+          converter >> value;
+
+          if( !converter )
+            throw std::runtime_error( "Format error: unable to convert value" );
+
+          values.push_back( value );
+          ++columns;
+        }
+
+        if( height == 0 )
+          width = columns;
+        else if( width != columns )
+          throw std::runtime_error( "Format error: number of columns must not vary" );
+
         ++height;
+      }
 
-      in.clear();
-      in.seekg( position );
+      if( in.bad() )
+        throw std::runtime_error( "Unable to read input file" );
     }
 
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
-               std::back_inserter( values ) );
-
-    // We cannot fill an empty simplicial complex. It might be useful to
-    // throw an error here, though.
+    // We cannot fill an empty simplicial complex
     if( values.empty() )
-      return;
+      throw std::runtime_error( "Format error: matrix does not contain any values" );
 
     _height = height;
-    _width  = values.size() / height;
-    if( values.size() % height != 0 )
-      throw std::runtime_error( "Format error: number of columns must not vary" );
+    _width  = width;
 
     // This is required in order to assign the weight of nodes
     // correctly; we cannot trust the weights to be positive.
diff --git a/include/aleph/topology/io/Matrix.hh b/include/aleph/topology/io/Matrix.hh
index 593b829..37135b0 100644
--- a/include/aleph/topology/io/Matrix.hh
+++ b/include/aleph/topology/io/Matrix.hh
@@ -3,6 +3,8 @@
 
 #include <algorithm>
 #include <istream>
+#include <sstream>
+#include <stdexcept>
 #include <fstream>
 #include <string>
 #include <vector>
@@ -111,45 +113,60 @@ public:
   /** @overload operator()( const std::string&, SimplicialComplex&, SimplicialComplex&, Functor ) */
   template <class SimplicialComplex, class Functor> void operator()( std::istream& in, SimplicialComplex& K, Functor f )
   {
-    auto position = in.tellg();
+    using Simplex    = typename SimplicialComplex::ValueType;
+    using DataType   = typename Simplex::DataType;
+    using VertexType = typename Simplex::VertexType;
 
     std::size_t height = 0;
     std::size_t width  = 0;
 
+    std::vector<DataType> values;
+
     using namespace aleph::utilities;
 
     {
       std::string line;
       while( std::getline( in, line ) )
       {
-        line        = trim( line );
-        auto tokens = split( line );
+        line = trim( line );
+
+        // Skip empty lines and comments as promised
+        if( line.empty() || line.front() == '#' )
+          continue;
+
+        std::size_t columns = 0;
+        std::istringstream converter( line );
+
+        while( !converter.eof() )
+        {
+          DataType value = DataType();
+          converter >> value;
+
+          if( !converter )
+            throw std::runtime_error( "Format error: unable to convert value" );
 
-        if( width == 0 )
-          width = tokens.size();
-        else if( width != tokens.size() )
+          values.push_back( value );
+          ++columns;
+        }
+
+        if( height == 0 )
+          width = columns;
+        else if( width != columns )
           throw std::runtime_error( "Format error: number of columns must not vary" );
 
         ++height;
       }
 
-      in.clear();
-      in.seekg( position );
+      if( in.bad() )
+        throw std::runtime_error( "Unable to read input file" );
     }
 
+    if( values.empty() )
+      throw std::runtime_error( "Format error: matrix does not contain any values" );
+
     _height = height;
     _width  = width;
 
-    using Simplex    = typename SimplicialComplex::ValueType;
-    using DataType   = typename Simplex::DataType;
-    using VertexType = typename Simplex::VertexType;
-
-    std::vector<DataType> values;
-    values.reserve( _height * _width );
-
-    std::copy( std::istream_iterator<DataType>( in ), std::istream_iterator<DataType>(),
-               std::back_inserter( values ) );
-
     std::vector<Simplex> simplices;
 
     // Vertices --------------------------------------------------------
-- 
2.43.0


From 0c2365adb2a54bf50abf1604af566c1bfc4b26f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:01 +0000
Subject: [PATCH 012/117] fix: check sparse adjacency matrix files for missing
 entries

Nodes without a graph, labels or attributes were looked up out of range
or invented.  Labels and attributes of an earlier file could remain, read
errors passed for the end of a file, and the result was cleared even if
the load failed.  Reading without graph labels always failed.
---
 .../topology/io/SparseAdjacencyMatrix.hh      | 48 +++++++++++++------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/include/aleph/topology/io/SparseAdjacencyMatrix.hh b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
index 865e6a2..5279cf5 100644
--- a/include/aleph/topology/io/SparseAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/SparseAdjacencyMatrix.hh
@@ -51,6 +51,12 @@ public:
     using VertexType = typename Simplex::VertexType;
     using Edge       = std::pair<VertexType, VertexType>;
 
+    // Ensures that no information about other files remains
+    _graphLabels.clear();
+    _nodeLabels.clear();
+    _nodeAttributes.clear();
+    _edgeAttributes.clear();
+
     std::unordered_set<VertexType> vertices;
     std::vector<Edge> edges;
 
@@ -132,8 +138,7 @@ public:
     // them according to their graph ID. This function also does some
     // sanity checks in order to check input data consistency.
 
-    complexes.clear();
-    complexes.resize( graphIDs.size() );
+    std::vector<SimplicialComplex> result( graphIDs.size() );
 
     // Contains the *actual* labels of all graphs. It is possible that
     // some of the input data files do not contain a contiguous series
@@ -145,20 +150,21 @@ public:
 
     for( auto&& vertex : vertices )
     {
-      auto&& id    = node_id_to_graph_id[vertex];
-      auto&& index = graph_id_to_index[id];
-      auto&& K     = complexes[index];
+      auto&& id    = node_id_to_graph_id.at( vertex );
+      auto&& index = graph_id_to_index.at( id );
+      auto&& K     = result.at( index );
       auto s       = Simplex( vertex );
 
       // Most of the time, this just degenerates into an identity
       // lookup, but in case labels are not contiguous, they will
       // be assigned correctly here.
-      labels[index] = _graphLabels.at( index );
+      if( _readGraphLabels )
+        labels[index] = _graphLabels.at( index );
 
       if( _readNodeAttributes && isValidIndex( _nodeAttributeIndex ) )
       {
-        auto&& index = node_id_to_index[vertex];
-        s.setData( static_cast<DataType>( _nodeAttributes[index][ _nodeAttributeIndex ] ) );
+        auto&& index = node_id_to_index.at( vertex );
+        s.setData( static_cast<DataType>( _nodeAttributes.at( index ).at( _nodeAttributeIndex ) ) );
       }
 
       K.push_back( s );
@@ -169,25 +175,27 @@ public:
       auto&& edge = edges.at(i);
       auto&& u    = edge.first;
       auto&& v    = edge.second;
-      auto&& uID  = node_id_to_graph_id[u];
-      auto&& vID  = node_id_to_graph_id[v];
+      auto&& uID  = node_id_to_graph_id.at( u );
+      auto&& vID  = node_id_to_graph_id.at( v );
 
       if( uID != vID )
         throw std::runtime_error( "Format error: an edge must not belong to multiple graphs" );
 
-      auto&& index = graph_id_to_index[ uID ];
-      auto&& K     = complexes[index];
+      auto&& index = graph_id_to_index.at( uID );
+      auto&& K     = result.at( index );
       auto s       = Simplex( {u,v} );
 
       if( _readEdgeAttributes && isValidIndex( _edgeAttributeIndex ) )
-        s.setData( static_cast<DataType>( _edgeAttributes[i][ _edgeAttributeIndex ] ) );
+        s.setData( static_cast<DataType>( _edgeAttributes.at( i ).at( _edgeAttributeIndex ) ) );
 
       K.push_back( s );
     }
 
-    for( auto&& K : complexes )
+    for( auto&& K : result )
       K.sort( aleph::topology::filtrations::Data<Simplex>() );
 
+    complexes.swap( result );
+
     if( labels.size() < _graphLabels.size() )
       _graphLabels = labels;
   }
@@ -295,6 +303,9 @@ private:
         throw std::runtime_error( "Format error: cannot parse line in sparse adjacency matrix" );
     }
 
+    if( in.bad() )
+      throw std::runtime_error( "Unable to read input adjacency matrix file" );
+
     return std::make_pair( vertices, edges );
   }
 
@@ -344,6 +355,9 @@ private:
       graphIDs.insert( graphID );
     }
 
+    if( in.bad() )
+      throw std::runtime_error( "Unable to read graph indicator file" );
+
     return std::make_pair( graphIDs, node_id_to_graph_id );
   }
 
@@ -364,6 +378,9 @@ private:
       labels.push_back( line );
     }
 
+    if( in.bad() )
+      throw std::runtime_error( "Unable to read labels input file" );
+
     return labels;
   }
 
@@ -415,6 +432,9 @@ private:
       allAttributes.push_back( attributes );
     }
 
+    if( in.bad() )
+      throw std::runtime_error( "Unable to read attributes input file" );
+
     return allAttributes;
   }
 
-- 
2.43.0


From 9627fc314ba1c3f4f8b3ba33b750c9e219366958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:30:21 +0000
Subject: [PATCH 013/117] fix: report read errors for functions and spectra

A read error passed for the end of the file.  The spectrum reader kept
values of longer files read before.
---
 include/aleph/topology/io/FlexSpectrum.hh |  7 +++++++
 include/aleph/topology/io/Function.hh     | 15 +++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/aleph/topology/io/FlexSpectrum.hh b/include/aleph/topology/io/FlexSpectrum.hh
index ff22c86..dfa4193 100644
--- a/include/aleph/topology/io/FlexSpectrum.hh
+++ b/include/aleph/topology/io/FlexSpectrum.hh
@@ -42,6 +42,10 @@ public:
     std::vector<DataType> intensities;
     std::vector<Simplex> simplices;
 
+    // Ensures that no information about other files remains
+    _index_to_value.clear();
+    _index_to_intensity.clear();
+
     // Read lines & create vertices ------------------------------------
     //
     // This only fills up the auxiliary data structure of the spectrum
@@ -72,6 +76,9 @@ public:
       ++index;
     }
 
+    if( in.bad() )
+      throw std::runtime_error( "Unable to read input file" );
+
     // Abandon further calculations; the simplicial complex is empty or
     // almost empty and no edges can be added.
     if( index <= 1)
diff --git a/include/aleph/topology/io/Function.hh b/include/aleph/topology/io/Function.hh
index 44f99b8..c5d266c 100644
--- a/include/aleph/topology/io/Function.hh
+++ b/include/aleph/topology/io/Function.hh
@@ -38,16 +38,20 @@ template <
   if( !in )
     throw std::runtime_error( "Unable to open input filename" );
 
-  functionValues.clear();
-  functionValues.shrink_to_fit();
+  std::vector<DataType> values;
 
   std::copy( std::istream_iterator<DataType>( in ),
              std::istream_iterator<DataType>(),
-             std::back_inserter( functionValues ) );
+             std::back_inserter( values ) );
 
-  if( functionValues.empty() )
+  if( in.bad() )
+    throw std::runtime_error( "Unable to read input file" );
+
+  if( values.empty() )
     throw std::runtime_error( "Unable to load any function values" );
 
+  functionValues.swap( values );
+
   std::vector<Index> indices( 2*functionValues.size() - 1 );
   std::iota( indices.begin(), indices.end(), Index(0) );
 
@@ -240,6 +244,9 @@ template <class SimplicialComplex, class Functor> std::vector<SimplicialComplex>
     complexes.push_back( K );
   }
 
+  if( in.bad() )
+    throw std::runtime_error( "Unable to read input file" );
+
   return complexes;
 }
 
-- 
2.43.0


From 7658ef8fd6c84da95e21633d69183f6ddf3ab0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:01 +0000
Subject: [PATCH 014/117] fix: release memory in the HDF5 reader and reject
 other dimensions

The array of dimensions was never freed, and data sets that are not
two-dimensional were ignored silently.
---
 include/aleph/topology/io/HDF5.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/aleph/topology/io/HDF5.hh b/include/aleph/topology/io/HDF5.hh
index 4c046fc..d54f710 100644
--- a/include/aleph/topology/io/HDF5.hh
+++ b/include/aleph/topology/io/HDF5.hh
@@ -92,15 +92,15 @@ public:
     auto&& numVertices = dataSpace.getSimpleExtentNpoints();
 
     if( dimension != 2 )
-      return;
+      throw std::runtime_error( "Format error: expecting a two-dimensional data set" );
 
     std::size_t width  = 0;
     std::size_t height = 0;
 
     {
-      hsize_t* dimensions = new hsize_t[ dimension ];
+      std::vector<hsize_t> dimensions( static_cast<std::size_t>( dimension ) );
 
-      dataSpace.getSimpleExtentDims( dimensions,
+      dataSpace.getSimpleExtentDims( dimensions.data(),
                                      nullptr );
 
       width  = dimensions[0];
-- 
2.43.0


From 4a2ba5c98422bcd2990fa5de49037bd97b265c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:29 +0000
Subject: [PATCH 015/117] fix: report labels of the last file only, in vertex
 order

Labels of an earlier file remained if the next format has none.  Labels
of Pajek files were sorted as strings, so the tenth label came second.
---
 .../aleph/topology/io/SimplicialComplexReader.hh    | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/SimplicialComplexReader.hh b/include/aleph/topology/io/SimplicialComplexReader.hh
index 4095c87..c73a026 100644
--- a/include/aleph/topology/io/SimplicialComplexReader.hh
+++ b/include/aleph/topology/io/SimplicialComplexReader.hh
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <fstream>
 #include <iterator>
+#include <map>
 #include <string>
 #include <stdexcept>
 #include <vector>
@@ -16,6 +17,7 @@
 #include <aleph/topology/io/VTK.hh>
 
 #include <aleph/utilities/Filesystem.hh>
+#include <aleph/utilities/String.hh>
 
 namespace aleph
 {
@@ -96,6 +98,9 @@ public:
 
     auto extension = aleph::utilities::extension( filename );
 
+    // Ensures that no labels of other files remain
+    _labels.clear();
+
     // The GML parser works more or less on its own and does not make
     // use of any stored variables.
     if( extension == ".gml" )
@@ -123,7 +128,13 @@ public:
       PajekReader reader;
       reader( filename, K );
 
-      _labels = getLabels( reader.getLabelMap() );
+      // The map is sorted by strings, whereas the labels are supposed to
+      // follow the order of vertices.
+      std::map<unsigned long, std::string> labels;
+      for( auto&& pair : reader.getLabelMap() )
+        labels[ aleph::utilities::convert<unsigned long>( pair.first ) ] = pair.second;
+
+      _labels = getLabels( labels );
     }
 
     // For PLY files, the parser supports optionally reading a property
-- 
2.43.0


From c17aa0c0613d24fe8d3000252c34037b6e0ca1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:29 +0000
Subject: [PATCH 016/117] fix: reject invalid persistence diagrams

JSON files that are cut off or miss a field stopped the program by an
assertion.  Read errors in text files passed for the end of the file.
---
 include/aleph/persistenceDiagrams/io/JSON.hh | 23 +++++++++++++++++++-
 include/aleph/persistenceDiagrams/io/Raw.hh  |  3 +++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/io/JSON.hh b/include/aleph/persistenceDiagrams/io/JSON.hh
index 2065ec0..eb97515 100644
--- a/include/aleph/persistenceDiagrams/io/JSON.hh
+++ b/include/aleph/persistenceDiagrams/io/JSON.hh
@@ -112,15 +112,33 @@ template <class T> std::vector< aleph::PersistenceDiagram<T> > readJSON( std::is
     document.ParseStream( isw );
   }
 
+  if( in.bad() )
+    throw std::runtime_error( "Unable to read input file" );
+
+  if( document.HasParseError() || !document.IsObject() )
+    throw std::runtime_error( "Unable to parse JSON document" );
+
   using PersistenceDiagram = aleph::PersistenceDiagram<T>;
 
   std::vector<PersistenceDiagram> persistenceDiagrams;
 
-  if( !document.HasMember( "diagrams" ) )
+  if( !document.HasMember( "diagrams" ) || !document["diagrams"].IsArray() )
     throw std::runtime_error( "Unable to find array of persistence diagrams" );
 
   for( auto&& diagram : document["diagrams"].GetArray() )
   {
+    if( !diagram.IsObject() )
+      throw std::runtime_error( "Unable to parse persistence diagram" );
+
+    for( auto&& key : { "dimension", "betti", "size" } )
+    {
+      if( !diagram.HasMember( key ) || !diagram[key].IsUint() )
+        throw std::runtime_error( "Missing or invalid information about persistence diagram" );
+    }
+
+    if( !diagram.HasMember( "diagram" ) || !diagram["diagram"].IsArray() )
+      throw std::runtime_error( "Unable to find points of persistence diagram" );
+
     auto dimension = diagram["dimension"].GetUint();
     auto betti     = diagram["betti"].GetUint();
     auto size      = diagram["size"].GetUint();
@@ -130,6 +148,9 @@ template <class T> std::vector< aleph::PersistenceDiagram<T> > readJSON( std::is
 
     for( auto&& point : diagram["diagram"].GetArray() )
     {
+      if( !point.IsArray() || point.Size() < 2 || !point[0].IsString() || !point[1].IsString() )
+        throw std::runtime_error( "Unable to parse point of persistence diagram" );
+
       auto x  = aleph::utilities::convert<T>( point[0].GetString() );
       auto y  = aleph::utilities::convert<T>( point[1].GetString() );
 
diff --git a/include/aleph/persistenceDiagrams/io/Raw.hh b/include/aleph/persistenceDiagrams/io/Raw.hh
index 40d6583..98ee858 100644
--- a/include/aleph/persistenceDiagrams/io/Raw.hh
+++ b/include/aleph/persistenceDiagrams/io/Raw.hh
@@ -64,6 +64,9 @@ template <class T> PersistenceDiagram<T> load( const std::string& filename )
     }
   }
 
+  if( in.bad() )
+    throw std::runtime_error( "Unable to read input file" );
+
   return persistenceDiagram;
 }
 
-- 
2.43.0


From 19aab3a880ba339af5eb81754e6400b1a4f09750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:29 +0000
Subject: [PATCH 017/117] fix: load the last point of a file without trailing
 line break

The number of points was taken from the number of line breaks, so the
last line was rejected, or gave an empty cloud, if it was not ended by
one.  Missing files and read errors passed for an empty point cloud.
---
 include/aleph/containers/PointCloud.hh | 27 +++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/aleph/containers/PointCloud.hh b/include/aleph/containers/PointCloud.hh
index 88438a8..106a0a8 100644
--- a/include/aleph/containers/PointCloud.hh
+++ b/include/aleph/containers/PointCloud.hh
@@ -233,17 +233,9 @@ template<class T> PointCloud<T> load( std::istream& in )
   if( !in )
     return PointCloud<T>();
 
-  auto lines = std::count( std::istreambuf_iterator<char>( in ),
-                           std::istreambuf_iterator<char>(),
-                           '\n' );
+  std::size_t lines = 0;
 
-  in.clear();
-  in.seekg( 0 );
-
-  if( lines <= 0 )
-    return PointCloud<T>();
-
-  // Recount all lines in the file, removing comments and empty lines
+  // Count all lines in the file, removing comments and empty lines
   // from the calculation. Else, the code below allocates many points
   // that will remain empty.
   {
@@ -251,17 +243,20 @@ template<class T> PointCloud<T> load( std::istream& in )
     while( std::getline( in, line ) )
     {
       line = utilities::trim( line );
-      if( line.empty() || line.front() == '#' )
-        lines -= 1;
+      if( !line.empty() && line.front() != '#' )
+        lines += 1;
     }
   }
 
+  if( in.bad() )
+    throw std::runtime_error( "Unable to read input file" );
+
   in.clear();
   in.seekg( 0 );
 
   std::size_t i = 0;
   std::size_t d = 0;
-  std::size_t n = static_cast<std::size_t>( lines );
+  std::size_t n = lines;
 
   std::string line;
 
@@ -300,6 +295,9 @@ template<class T> PointCloud<T> load( std::istream& in )
     ++i;
   }
 
+  if( in.bad() || i != n )
+    throw std::runtime_error( "Unable to read input file" );
+
   return pointCloud;
 }
 
@@ -313,6 +311,9 @@ template<class T> PointCloud<T> load( std::istream& in )
 template<class T> PointCloud<T> load( const std::string& filename )
 {
   std::ifstream in( filename );
+  if( !in )
+    throw std::runtime_error( "Unable to read input file" );
+
   return load<T>( in );
 }
 
-- 
2.43.0


From ce4e8466c1e3756eb6c13a172804a3b364ef4995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:31:29 +0000
Subject: [PATCH 018/117] fix: report missing files and read errors for
 boundary matrices

A missing file gave an empty matrix, a read error a shortened one.
Indented comments were counted as comments but then parsed as columns.
---
 include/aleph/topology/BoundaryMatrix.hh | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/BoundaryMatrix.hh b/include/aleph/topology/BoundaryMatrix.hh
index 609a89b..caf93c6 100644
--- a/include/aleph/topology/BoundaryMatrix.hh
+++ b/include/aleph/topology/BoundaryMatrix.hh
@@ -186,6 +186,9 @@ public:
         ++numColumns;
     }
 
+    if( in.bad() )
+      throw std::runtime_error( "Unable to read input file" );
+
     in.clear();
     in.seekg( 0 );
 
@@ -208,8 +211,9 @@ public:
                  std::istream_iterator<std::string>(),
                  std::back_inserter( tokens ) );
 
-      // Ignore this line if it does not contain any tokens
-      if( tokens.empty() )
+      // Ignore this line if it does not contain any tokens, or if it is an
+      // indented comment.
+      if( tokens.empty() || tokens.front().front() == '#' )
         continue;
 
       std::vector<Index> indices;
@@ -237,12 +241,18 @@ public:
       ++curColumn;
     }
 
+    if( in.bad() || curColumn != numColumns )
+      throw std::runtime_error( "Unable to read input file" );
+
     return M;
   }
 
   static BoundaryMatrix load( const std::string& filename )
   {
     std::ifstream in( filename );
+    if( !in )
+      throw std::runtime_error( "Unable to read input file" );
+
     return BoundaryMatrix::load( in );
   }
 
-- 
2.43.0


From e5052bd38608b08202b21ce92817938d7c27aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:44 +0000
Subject: [PATCH 019/117] fix: do not repeat the last face of a PLY file that
 is cut off

Missing lines were filled with the last line that could be read.
---
 include/aleph/topology/io/PLY.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/PLY.hh b/include/aleph/topology/io/PLY.hh
index c5a9da9..4b74ea5 100644
--- a/include/aleph/topology/io/PLY.hh
+++ b/include/aleph/topology/io/PLY.hh
@@ -464,7 +464,8 @@ private:
     {
       std::vector<double> vertexCoordinates( 3 );
 
-      std::getline( in, line );
+      if( !std::getline( in, line ) )
+        throw std::runtime_error( "Format error: Missing at least one vertex" );
 
       line        = utilities::trim( line );
       auto tokens = utilities::split( line );
@@ -501,7 +502,9 @@ private:
 
     for( std::size_t faceIndex = 0; faceIndex < numFaces; faceIndex++ )
     {
-      std::getline( in, line );
+      if( !std::getline( in, line ) )
+        throw std::runtime_error( "Format error: Missing at least one face" );
+
       std::istringstream converter( line );
 
       unsigned numEntries = 0;
-- 
2.43.0


From cfae397ed761b1f483602a18e01f81a994ac58d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:44 +0000
Subject: [PATCH 020/117] fix: do not take cut-off keywords of VTK files for
 values

---
 include/aleph/topology/io/VTK.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/VTK.hh b/include/aleph/topology/io/VTK.hh
index b873d39..b57bd96 100644
--- a/include/aleph/topology/io/VTK.hh
+++ b/include/aleph/topology/io/VTK.hh
@@ -197,8 +197,16 @@ public:
         {
           auto strings = split( line );
 
-          for( auto&& value : strings )
-            values.push_back( convert<DataType>( value ) );
+          for( auto&& string : strings )
+          {
+            bool success = false;
+            auto value   = convert<DataType>( string, success );
+
+            if( !success )
+              throw std::runtime_error( "Format error: unable to convert value" );
+
+            values.push_back( value );
+          }
         }
       }
     }
-- 
2.43.0


From 64efe4dc69bf4eb92214a35a11e095800d11d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:57 +0000
Subject: [PATCH 021/117] fix: report failing writes of GML, JSON, TikZ, and
 line files

---
 include/aleph/persistenceDiagrams/io/JSON.hh | 4 ++++
 include/aleph/topology/io/GML.hh             | 4 ++++
 include/aleph/topology/io/LinesAndPoints.hh  | 4 ++++
 include/aleph/topology/io/TikZ.hh            | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/include/aleph/persistenceDiagrams/io/JSON.hh b/include/aleph/persistenceDiagrams/io/JSON.hh
index eb97515..7ebfe9e 100644
--- a/include/aleph/persistenceDiagrams/io/JSON.hh
+++ b/include/aleph/persistenceDiagrams/io/JSON.hh
@@ -93,6 +93,10 @@ template <class Diagram> void writeJSON( const std::string& filename, const Diag
     throw std::runtime_error( "Unable to open output file" );
 
   writeJSON( out, D, name );
+
+  out.close();
+  if( !out )
+    throw std::runtime_error( "Unable to write output file" );
 }
 
 /**
diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index 169a774..6d500cd 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -520,6 +520,10 @@ public:
       throw std::runtime_error( "Unable to open output file" );
 
     this->operator()( out, K );
+
+    out.close();
+    if( !out )
+      throw std::runtime_error( "Unable to write output file" );
   }
 
   template <class SimplicialComplex> void operator()( std::ostream& out, SimplicialComplex& K )
diff --git a/include/aleph/topology/io/LinesAndPoints.hh b/include/aleph/topology/io/LinesAndPoints.hh
index 3b91144..f79bef4 100644
--- a/include/aleph/topology/io/LinesAndPoints.hh
+++ b/include/aleph/topology/io/LinesAndPoints.hh
@@ -55,6 +55,10 @@ public:
       throw std::runtime_error( "Unable to open output file" );
 
     this->operator()( out, K, container );
+
+    out.close();
+    if( !out )
+      throw std::runtime_error( "Unable to write output file" );
   }
 
   /** Writes the simplicial complex to a new output stream. */
diff --git a/include/aleph/topology/io/TikZ.hh b/include/aleph/topology/io/TikZ.hh
index 2d21f37..0301449 100644
--- a/include/aleph/topology/io/TikZ.hh
+++ b/include/aleph/topology/io/TikZ.hh
@@ -44,6 +44,10 @@ public:
       throw std::runtime_error( "Unable to open output file" );
 
     this->operator()( out, K, container );
+
+    out.close();
+    if( !out )
+      throw std::runtime_error( "Unable to write output file" );
   }
 
   /** Writes the simplicial complex to a new output stream. */
-- 
2.43.0


From c9b0caf7c66df3e2889bb4a6b7d0246c2652ba8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:44 +0000
Subject: [PATCH 022/117] fix: asking for more neighbours than there are points

The exhaustive neighbour search erased from beyond the end of its lists.
---
 include/aleph/geometry/BruteForce.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/aleph/geometry/BruteForce.hh b/include/aleph/geometry/BruteForce.hh
index 9e98504..26f743a 100644
--- a/include/aleph/geometry/BruteForce.hh
+++ b/include/aleph/geometry/BruteForce.hh
@@ -111,8 +111,12 @@ public:
 
       std::sort( distances[i].begin(), distances[i].end() );
 
-      distances[i].erase( distances[i].begin() + k, distances[i].end() );
-      indices[i].erase( indices[i].begin() + k, indices[i].end() );
+      // There may be fewer points than neighbours have been requested.
+      if( k < indices[i].size() )
+      {
+        distances[i].erase( distances[i].begin() + k, distances[i].end() );
+        indices[i].erase( indices[i].begin() + k, indices[i].end() );
+      }
     }
   }
 
-- 
2.43.0


From 0cac155a85a6c867e3d13ae04ce95460d8ca382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:44 +0000
Subject: [PATCH 023/117] fix: distances of neighbours and lifetime of the
 search index

Every row of distances was given the length of the first row, so that
rows were cut off or read past their end. The index was leaked if
building it failed.
---
 include/aleph/geometry/FLANN.hh | 34 +++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/include/aleph/geometry/FLANN.hh b/include/aleph/geometry/FLANN.hh
index db39c67..e2045fe 100644
--- a/include/aleph/geometry/FLANN.hh
+++ b/include/aleph/geometry/FLANN.hh
@@ -11,6 +11,7 @@
 #endif
 
 #include <algorithm>
+#include <memory>
 #include <vector>
 
 namespace aleph
@@ -39,20 +40,13 @@ public:
     flann::IndexParams indexParameters
       = flann::KDTreeSingleIndexParams();
 
-    _index
-      = new flann::Index<DistanceFunctor>( _matrix, indexParameters );
+    _index.reset(
+      new flann::Index<DistanceFunctor>( _matrix, indexParameters ) );
 
     _index->buildIndex();
 #endif
   }
 
-  ~FLANN()
-  {
-#ifdef ALEPH_WITH_FLANN
-    delete _index;
-#endif
-  }
-
 #ifdef ALEPH_WITH_FLANN
   void radiusSearch( ElementType radius,
                      std::vector< std::vector<IndexType> >& indices,
@@ -92,18 +86,22 @@ public:
 
     // Perform transformation of distances -----------------------------
 
-    if( internalDistances.empty() )
-      return;
+    // The rows may have different lengths because every point has its own
+    // number of neighbours.
 
     distances.clear();
-    distances.resize( internalDistances.size(), std::vector<ElementType>( internalDistances.front().size() ) );
+    distances.resize( internalDistances.size() );
 
     {
       using size_type = typename std::vector< std::vector<ElementType> >::size_type;
 
       for( size_type row = 0; row < distances.size(); row++ )
+      {
+        distances[row].resize( internalDistances[row].size() );
+
         for( size_type col = 0; col < distances[row].size(); col++ )
           distances[row][col] = static_cast<ElementType>( internalDistances[row][col] );
+      }
     }
 
     for( auto&& D : distances )
@@ -175,18 +173,22 @@ public:
 
     // Perform transformation of distances -----------------------------
 
-    if( internalDistances.empty() )
-      return;
+    // The rows may have different lengths because every point has its own
+    // number of neighbours.
 
     distances.clear();
-    distances.resize( internalDistances.size(), std::vector<ElementType>( internalDistances.front().size() ) );
+    distances.resize( internalDistances.size() );
 
     {
       using size_type = typename std::vector< std::vector<ElementType> >::size_type;
 
       for( size_type row = 0; row < distances.size(); row++ )
+      {
+        distances[row].resize( internalDistances[row].size() );
+
         for( size_type col = 0; col < distances[row].size(); col++ )
           distances[row][col] = static_cast<ElementType>( internalDistances[row][col] );
+      }
     }
 
     for( auto&& D : distances )
@@ -230,7 +232,7 @@ private:
   flann::Matrix<ElementType> _matrix;
 
   /** Index structure for queries. */
-  flann::Index<DistanceFunctor>* _index = nullptr;
+  std::unique_ptr< flann::Index<DistanceFunctor> > _index;
 
 #endif
 
-- 
2.43.0


From 6882a541aa8c172e752e8032008bceb3f9a01f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:26:44 +0000
Subject: [PATCH 024/117] fix: release the arrays of a miniball whose
 construction fails

---
 include/aleph/external/Miniball.hpp | 32 ++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/aleph/external/Miniball.hpp b/include/aleph/external/Miniball.hpp
index e298f59..ad1485b 100644
--- a/include/aleph/external/Miniball.hpp
+++ b/include/aleph/external/Miniball.hpp
@@ -194,14 +194,22 @@ namespace Miniball {
       a (NULL)
   {	
     assert (points_begin != points_end);
-    create_arrays();
 
-    // set initial center
-    for (int j=0; j<d; ++j) c[0][j] = nt0;
-    current_c = c[0];
+    // the destructor does not run if the constructor does not finish
+    try {
+      create_arrays();
 
-    // compute miniball
-    pivot_mb (points_end);
+      // set initial center
+      for (int j=0; j<d; ++j) c[0][j] = nt0;
+      current_c = c[0];
+
+      // compute miniball
+      pivot_mb (points_end);
+    }
+    catch (...) {
+      delete_arrays();
+      throw;
+    }
 
     // update time
     time = (clock() - time) / CLOCKS_PER_SEC;
@@ -216,9 +224,9 @@ namespace Miniball {
   template <typename CoordAccessor>
   void Miniball<CoordAccessor>::create_arrays() 
   {
-    c = new NT*[d+1]; 
-    v = new NT*[d+1]; 
-    a = new NT*[d+1];
+    c = new NT*[d+1](); 
+    v = new NT*[d+1](); 
+    a = new NT*[d+1]();
     for (int i=0; i<d+1; ++i) {
       c[i] = new NT[d];
       v[i] = new NT[d];
@@ -238,9 +246,9 @@ namespace Miniball {
     delete[] q0;
     delete[] sqr_r;
     for (int i=0; i<d+1; ++i) {
-      delete[] a[i];
-      delete[] v[i];
-      delete[] c[i];
+      if (a) delete[] a[i];
+      if (v) delete[] v[i];
+      if (c) delete[] c[i];
     }
     delete[] a;
     delete[] v;
-- 
2.43.0


From 76890bdb0466662263b9abfd22ff03a25b03c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:48 +0000
Subject: [PATCH 025/117] fix: weight functor of subdivisions is given the
 dimension

The documentation promises the dimension of a simplex, but the functor
was called with its number of vertices.
---
 include/aleph/topology/BarycentricSubdivision.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/BarycentricSubdivision.hh b/include/aleph/topology/BarycentricSubdivision.hh
index e5a0428..df8e703 100644
--- a/include/aleph/topology/BarycentricSubdivision.hh
+++ b/include/aleph/topology/BarycentricSubdivision.hh
@@ -181,7 +181,7 @@ public:
           // The new cone simplex needs to use the same weight as the
           // barycentre simplex.
           cone.emplace_back( Simplex( vertices.begin(), vertices.end(),
-                                      s.data() * DataType( functor( vertices.size() ) ) ) );
+                                      s.data() * DataType( functor( vertices.size() - 1 ) ) ) );
         }
 
        // Cone boundaries; required in order to ensure consistency of
@@ -198,7 +198,7 @@ public:
           // the resulting simplicial complex---it will not be used by
           // any other simplex during the subdivision.
           L.push_back( Simplex( vertices.begin(), vertices.end(),
-                                s.data() * DataType( functor( vertices.size() ) ) ) );
+                                s.data() * DataType( functor( vertices.size() - 1 ) ) ) );
         }
 
         subdivision[s] = cone;
-- 
2.43.0


From e529e099453698cd57f4f45aac4f104d506767cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:36 +0000
Subject: [PATCH 026/117] fix: handle allocation failures in assignment solver

Rows of a cost matrix were lost if the allocation of a subsequent row
failed. Functions that allocate memory or use an output iterator of the
caller are not declared noexcept anymore.
---
 .../distances/detail/Matrix.hh                | 46 +++++++++++++------
 .../distances/detail/Munkres.hh               |  4 +-
 2 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/distances/detail/Matrix.hh b/include/aleph/persistenceDiagrams/distances/detail/Matrix.hh
index 45cf2dd..d8cee51 100644
--- a/include/aleph/persistenceDiagrams/distances/detail/Matrix.hh
+++ b/include/aleph/persistenceDiagrams/distances/detail/Matrix.hh
@@ -23,34 +23,23 @@ public:
 
   explicit Matrix( std::size_t n )
     : _n( n )
-    , _data( new T*[_n] )
+    , _data( allocate( _n ) )
   {
     for( std::size_t row = 0; row < _n; row ++ )
-    {
-      _data[row] = new T[_n];
-
       std::fill( _data[row], _data[row] + _n, T() );
-    }
   }
 
   ~Matrix()
   {
-    for( std::size_t row = 0; row < _n; row++ )
-      delete[] _data[row];
-
-    delete[] _data;
+    deallocate( _data, _n );
   }
 
   Matrix( const Matrix& other )
     : _n( other._n )
-    , _data( new T*[_n] )
+    , _data( allocate( _n ) )
   {
     for( std::size_t row = 0; row < _n; row ++ )
-    {
-      _data[row] = new T[_n];
-
       std::copy( other._data[row], other._data[row] + _n, _data[row] );
-    }
   }
 
   Matrix( Matrix&& other )
@@ -93,6 +82,35 @@ public:
 
 private:
 
+  // Allocates all rows of the matrix. No memory is kept if one of the
+  // allocations fails.
+  static T** allocate( std::size_t n )
+  {
+    T** data        = new T*[n];
+    std::size_t row = 0;
+
+    try
+    {
+      for( ; row < n; row++ )
+        data[row] = new T[n];
+    }
+    catch( ... )
+    {
+      deallocate( data, row );
+      throw;
+    }
+
+    return data;
+  }
+
+  static void deallocate( T** data, std::size_t n ) noexcept
+  {
+    for( std::size_t row = 0; row < n; row++ )
+      delete[] data[row];
+
+    delete[] data;
+  }
+
   std::size_t _n = 0;
   T** _data      = nullptr;
 };
diff --git a/include/aleph/persistenceDiagrams/distances/detail/Munkres.hh b/include/aleph/persistenceDiagrams/distances/detail/Munkres.hh
index abd77ba..8f6bb6c 100644
--- a/include/aleph/persistenceDiagrams/distances/detail/Munkres.hh
+++ b/include/aleph/persistenceDiagrams/distances/detail/Munkres.hh
@@ -28,7 +28,7 @@ public:
     unable to know whether the stored matrix has been reduced or not.
   */
 
-  T cost( const Matrix<T>& costs ) const noexcept
+  T cost( const Matrix<T>& costs ) const
   {
     std::vector<T> allCosts;
 
@@ -62,7 +62,7 @@ public:
     an
   */
 
-  template <class OutputIterator> void matching( OutputIterator result ) const noexcept
+  template <class OutputIterator> void matching( OutputIterator result ) const
   {
     using Index = std::size_t;
     auto n      = _matrix.n();
-- 
2.43.0


From dd58514c1f8c7d2a540dea3333c9c99c6e0dab37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:49 +0000
Subject: [PATCH 027/117] fix: indicator function of points on the diagonal at
 the smallest value

An interval from zero to the smallest value was added. For negative
values this is not a valid interval and terminated the program.
---
 .../aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh b/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
index b1bc30b..15118ec 100644
--- a/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
+++ b/include/aleph/persistenceDiagrams/PersistenceIndicatorFunction.hh
@@ -156,7 +156,8 @@ template <class DataType> aleph::math::StepFunction<DataType> persistenceIndicat
     // implied by the values.
     else
     {
-      f.add( previous, eventPoints.at(i).value, static_cast<DataType>( numActiveFeatures ) );
+      if( i != 0 )
+        f.add( previous, eventPoints.at(i).value, static_cast<DataType>( numActiveFeatures ) );
       useNextPoint = true;
     }
 
-- 
2.43.0


From 3420420c20f9c1b2301aec269e96136ed28f28ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:49 +0000
Subject: [PATCH 028/117] fix: envelope does not read past the last point of a
 diagram

---
 include/aleph/persistenceDiagrams/Envelope.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/Envelope.hh b/include/aleph/persistenceDiagrams/Envelope.hh
index a505bb2..64916eb 100644
--- a/include/aleph/persistenceDiagrams/Envelope.hh
+++ b/include/aleph/persistenceDiagrams/Envelope.hh
@@ -82,7 +82,7 @@ public:
     for( auto&& x : X )
     {
       auto next = std::next( it );
-      while( next->x() == x )
+      while( next != P.end() && next->x() == x )
       {
         ++next;
         ++it;
-- 
2.43.0


From a5f2439a2fea0b20619631b5ccfeb60f5ce8b47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:49 +0000
Subject: [PATCH 029/117] fix: persistent entropy of diagrams with points on
 the diagonal

A persistence of zero resulted in a value that is not a number.
---
 include/aleph/persistenceDiagrams/Entropy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/Entropy.hh b/include/aleph/persistenceDiagrams/Entropy.hh
index e9f5193..fec0881 100644
--- a/include/aleph/persistenceDiagrams/Entropy.hh
+++ b/include/aleph/persistenceDiagrams/Entropy.hh
@@ -177,7 +177,7 @@ template <class T> T persistentEntropy( const aleph::PersistenceDiagram<T>& D )
                   [&totalPersistence] ( T persistence )
                   {
                     auto p = persistence / totalPersistence;
-                    return p * std::log2( p );
+                    return p * detail::log2( p );
                   } );
 
   return -aleph::math::accumulate_kahan_sorted( probabilities.begin(),
-- 
2.43.0


From 4a07eb27ed84681562307c44f47dad709d01db6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:43:49 +0000
Subject: [PATCH 030/117] fix: removing duplicates from a diagram reports
 allocation failures

The function allocates memory, so it must not be declared noexcept.
---
 include/aleph/persistenceDiagrams/PersistenceDiagram.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/PersistenceDiagram.hh b/include/aleph/persistenceDiagrams/PersistenceDiagram.hh
index 726ee0e..823ec3e 100644
--- a/include/aleph/persistenceDiagrams/PersistenceDiagram.hh
+++ b/include/aleph/persistenceDiagrams/PersistenceDiagram.hh
@@ -165,7 +165,7 @@ public:
     in any case).
   */
 
-  void removeDuplicates() noexcept
+  void removeDuplicates()
   {
     std::set<Point> points( _points.begin(), _points.end() );
 
-- 
2.43.0


From aaf6629d4884b769f95bec910bacc192c355dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:30 +0000
Subject: [PATCH 031/117] fix: evaluation and memory handling of step functions

Where intervals touch, a negative value was preferred regardless of its
absolute value. Simplifying a function read past its last interval. The
division of an interval by a scalar did not terminate. Functions that
allocate memory are not declared noexcept anymore.
---
 include/aleph/math/StepFunction.hh | 32 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index 01a2674..8d247cc 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -146,7 +146,7 @@ public:
     {
       // Note that I do not have to handle divisions by zero here
       // because only the step function is using this class.
-      return this->operator/=( 1/lambda );
+      return this->operator*=( 1/lambda );
     }
 
     IndicatorFunction operator/( I lambda ) const
@@ -172,13 +172,13 @@ public:
   };
 
   /** Adds a new indicator function to the step function */
-  void add( D a, D b, I y ) noexcept
+  void add( D a, D b, I y )
   {
     _indicatorFunctions.insert( IndicatorFunction(a,b,y) );
   }
 
   /** Returns the domain of the function */
-  template <class OutputIterator> void domain( OutputIterator result ) const noexcept
+  template <class OutputIterator> void domain( OutputIterator result ) const
   {
     for( auto&& f : _indicatorFunctions )
     {
@@ -188,7 +188,7 @@ public:
   }
 
   /** Returns the image of the function */
-  template <class OutputIterator> void image( OutputIterator result ) const noexcept
+  template <class OutputIterator> void image( OutputIterator result ) const
   {
     for( auto&& f : _indicatorFunctions )
       *result++ = f.y();
@@ -216,7 +216,7 @@ public:
 
       // If multiple indicator functions overlap, take the one whose
       // absolute value is largest.
-      if( std::abs( f(x) ) > value )
+      if( std::abs( f(x) ) > std::abs( value ) )
         value = f(x);
     }
 
@@ -244,7 +244,7 @@ public:
   }
 
   /** Calculates the sum of this step function with another step function */
-  StepFunction& operator+=( const StepFunction& other ) noexcept
+  StepFunction& operator+=( const StepFunction& other )
   {
     auto&& f = *this;
     auto&& g = other;
@@ -312,7 +312,7 @@ public:
   }
 
   /** Calculates the sum of this step function with another step function */
-  StepFunction operator+( const StepFunction& rhs ) const noexcept
+  StepFunction operator+( const StepFunction& rhs ) const
   {
     auto lhs = *this;
     lhs += rhs;
@@ -326,7 +326,7 @@ public:
   }
 
   /** Calculates the difference of this step function with another step function */
-  StepFunction operator-( const StepFunction& rhs ) const noexcept
+  StepFunction operator-( const StepFunction& rhs ) const
   {
     auto lhs = *this;
     lhs -= rhs;
@@ -334,7 +334,7 @@ public:
   }
 
   /** Unary minus: negates all values in the image of the step function */
-  StepFunction operator-() const noexcept
+  StepFunction operator-() const
   {
     StepFunction f;
 
@@ -345,7 +345,7 @@ public:
   }
 
   /** Adds a scalar to all step function values */
-  StepFunction operator+( I lambda ) const noexcept
+  StepFunction operator+( I lambda ) const
   {
     StepFunction f;
 
@@ -356,13 +356,13 @@ public:
   }
 
   /** Subtracts a scalar from all step function values */
-  StepFunction operator-( I lambda ) const noexcept
+  StepFunction operator-( I lambda ) const
   {
     return this->operator+( -lambda );
   }
 
   /** Multiplies the given step function with a scalar value */
-  StepFunction& operator*=( I lambda ) noexcept
+  StepFunction& operator*=( I lambda )
   {
     // The set may not be modified inline because this might result in
     // a changed sorting order. Hence the need for a copy.
@@ -376,7 +376,7 @@ public:
   }
 
   /** Multiplies the given step function with a scalar value */
-  StepFunction operator*( I lambda ) const noexcept
+  StepFunction operator*( I lambda ) const
   {
     auto f = *this;
     f *= lambda;
@@ -429,7 +429,7 @@ public:
   }
 
   /** Calculates the absolute value of the function */
-  StepFunction& abs() noexcept
+  StepFunction& abs()
   {
     std::set<IndicatorFunction> indicatorFunctions;
 
@@ -453,7 +453,7 @@ public:
   }
 
   /** Permits accessing all indicator functions */
-  std::set<IndicatorFunction> indicatorFunctions() const noexcept
+  std::set<IndicatorFunction> indicatorFunctions() const
   {
     return _indicatorFunctions;
   }
@@ -486,7 +486,7 @@ private:
 
     for( ; curr != _indicatorFunctions.end(); )
     {
-      while( curr->y() == prev->y() && curr != _indicatorFunctions.end() )
+      while( curr != _indicatorFunctions.end() && curr->y() == prev->y() )
         ++curr;
 
       indicatorFunctions.insert( IndicatorFunction( prev->a(), std::prev( curr )->b(), prev->y() ) );
-- 
2.43.0


From 377c4f135bd476012c55cdbfd46acee00aaf8c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:15 +0000
Subject: [PATCH 032/117] fix: integral and absolute value of piecewise linear
 functions

Segments that intersect the x-axis after adding functions or scalars were
not accounted for. Negative values and almost horizontal segments led to
wrong or undefined integrals. Functions that may throw or allocate memory
are not declared noexcept anymore, and adding a scalar in-place compiles.
---
 include/aleph/math/PiecewiseLinearFunction.hh | 68 +++++++++++--------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/include/aleph/math/PiecewiseLinearFunction.hh b/include/aleph/math/PiecewiseLinearFunction.hh
index 110e41e..4432ecd 100644
--- a/include/aleph/math/PiecewiseLinearFunction.hh
+++ b/include/aleph/math/PiecewiseLinearFunction.hh
@@ -122,13 +122,13 @@ public:
   // Operations --------------------------------------------------------
 
   /** Calculates the sum of two piecewise linear functions */
-  PiecewiseLinearFunction& operator+=( const PiecewiseLinearFunction& rhs ) noexcept
+  PiecewiseLinearFunction& operator+=( const PiecewiseLinearFunction& rhs )
   {
     return this->apply( rhs, std::plus<Image>() );
   }
 
   /** Calculates the sum of two piecewise linear functions */
-  PiecewiseLinearFunction operator+( const PiecewiseLinearFunction& rhs ) const noexcept
+  PiecewiseLinearFunction operator+( const PiecewiseLinearFunction& rhs ) const
   {
     auto lhs = *this;
     lhs += rhs;
@@ -136,26 +136,26 @@ public:
   }
 
   /** Adds a given value to all points in the image of the function */
-  PiecewiseLinearFunction operator+( Image lambda ) const noexcept
+  PiecewiseLinearFunction operator+( Image lambda ) const
   {
     auto f = *this;
     return f.apply( lambda, std::plus<Image>() );
   }
 
   /** Adds a given value to all points in the image of the function */
-  PiecewiseLinearFunction& operator+=( Image lambda ) const noexcept
+  PiecewiseLinearFunction& operator+=( Image lambda )
   {
     return this->apply( lambda, std::plus<Image>() );
   }
 
   /** Calculates the difference of two piecewise linear functions */
-  PiecewiseLinearFunction& operator-=( const PiecewiseLinearFunction& rhs ) noexcept
+  PiecewiseLinearFunction& operator-=( const PiecewiseLinearFunction& rhs )
   {
     return this->apply( rhs, std::minus<Image>() );
   }
 
   /** Calculates the difference of two piecewise linear functions */
-  PiecewiseLinearFunction operator-( const PiecewiseLinearFunction& rhs ) const noexcept
+  PiecewiseLinearFunction operator-( const PiecewiseLinearFunction& rhs ) const
   {
     auto lhs = *this;
     lhs -= rhs;
@@ -163,7 +163,7 @@ public:
   }
 
   /** Unary minus: negates all values in the image of the piecewise linear function */
-  PiecewiseLinearFunction operator-() const noexcept
+  PiecewiseLinearFunction operator-() const
   {
     PiecewiseLinearFunction f;
 
@@ -174,14 +174,14 @@ public:
   }
 
   /** Subtracts a given value from all points in the image of the function */
-  PiecewiseLinearFunction operator-( Image lambda ) const noexcept
+  PiecewiseLinearFunction operator-( Image lambda ) const
   {
     auto f = *this;
     return f.apply( lambda, std::minus<Image>() );
   }
 
   /** Subtracts a given value from all points in the image of the function */
-  PiecewiseLinearFunction& operator-=( Image lambda ) const noexcept
+  PiecewiseLinearFunction& operator-=( Image lambda )
   {
     return this->apply( lambda, std::minus<Image>() );
   }
@@ -196,7 +196,7 @@ public:
   }
 
   /** Multiplies the given piecewise linear function with a scalar value */
-  PiecewiseLinearFunction operator*( Image lambda ) const noexcept
+  PiecewiseLinearFunction operator*( Image lambda ) const
   {
     auto f = *this;
     f *= lambda;
@@ -213,7 +213,7 @@ public:
   }
 
   /** Divides the given step function by a scalar value */
-  PiecewiseLinearFunction operator/( I lambda ) const noexcept
+  PiecewiseLinearFunction operator/( I lambda ) const
   {
     auto f = *this;
     f /= lambda;
@@ -223,14 +223,14 @@ public:
   // Queries -----------------------------------------------------------
 
   /** Copies the domain values to an output iterator */
-  template <class OutputIterator> void domain( OutputIterator result ) const noexcept
+  template <class OutputIterator> void domain( OutputIterator result ) const
   {
     for( auto&& pair : _data )
       *result++ = pair.first;
   }
 
   /** Copies the image values to an output iterator */
-  template <class OutputIterator> void image( OutputIterator result ) const noexcept
+  template <class OutputIterator> void image( OutputIterator result ) const
   {
     for( auto&& pair : _data )
       *result++ = pair.second;
@@ -248,7 +248,7 @@ public:
     of the functions has a subdivided range of values.
   */
 
-  bool operator==( const PiecewiseLinearFunction& rhs ) const noexcept
+  bool operator==( const PiecewiseLinearFunction& rhs ) const
   {
     std::set<Domain> domain;
 
@@ -270,7 +270,7 @@ public:
   }
 
   /** Negates the comparison between two functions */
-  bool operator!=( const PiecewiseLinearFunction& rhs ) const noexcept
+  bool operator!=( const PiecewiseLinearFunction& rhs ) const
   {
     return !this->operator==( rhs );
   }
@@ -278,8 +278,13 @@ public:
   // Transformations ---------------------------------------------------
 
   /** Calculates the absolute value of the function */
-  PiecewiseLinearFunction& abs() noexcept
+  PiecewiseLinearFunction& abs()
   {
+    // Operations such as the addition of a scalar may have changed the
+    // intersections with the x-axis.
+    if( !_data.empty() )
+      this->insertIntersectionPoints();
+
     for( auto&& pair : _data )
       pair.second = std::abs( pair.second );
 
@@ -311,7 +316,7 @@ public:
     raised to the \f$p\f$-th power.
   */
 
-  Image integral( Image p = Image(1) ) const noexcept
+  Image integral( Image p = Image(1) ) const
   {
     if( _data.empty() )
       return Image();
@@ -332,23 +337,28 @@ public:
       auto x2 = current->first;
       auto y2 = current->second;
       auto m  = (y2 - y1) / (x2 - x1);
-      auto c  = y1 - m * x1;
 
       // Evaluator for the integral. This is an application of Cavalieri's
-      // quadrature formula.
-      auto evaluator = [&]( Image x )
+      // quadrature formula to the absolute value of the function.
+      auto evaluator = [&]( Image y )
       {
-        // Horizontal segments
-        if( m == Image() )
-          return std::pow( c, p ) * x;
-
-        // Regular lines
-        else
-          return std::pow( m*x + c, p+1 ) / ( m * (p+1) );
+        return std::pow( std::abs( y ), p+1 ) / ( std::abs( m ) * (p+1) );
       };
 
-      auto integral   = std::abs( evaluator( x2 ) - evaluator( x1 ) );
-      norm           += integral;
+      // Horizontal segments. This includes segments that are horizontal
+      // up to rounding because the difference of almost equal powers is
+      // not accurate.
+      if( std::abs( y2 - y1 ) <= std::cbrt( std::numeric_limits<Image>::epsilon() ) * std::abs( y1 + y2 ) )
+        norm += std::pow( std::abs( y1 + y2 ) / 2, p ) * ( x2 - x1 );
+
+      // Regular lines that intersect the x-axis; operations such as the
+      // addition of a scalar may lead to them.
+      else if( y1 * y2 < Image() )
+        norm += evaluator( y1 ) + evaluator( y2 );
+
+      // Regular lines
+      else
+        norm += std::abs( evaluator( y2 ) - evaluator( y1 ) );
 
       previous = current;
       ++current;
-- 
2.43.0


From f66213ed285442d7edd6bdcd03df88d1b75f366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:54 +0000
Subject: [PATCH 033/117] fix: bottleneck distance of empty and of differently
 sized diagrams

Two empty diagrams, diagrams with a single edge between them, and a second
diagram with more points than the first one led to invalid memory accesses.
Parallel edges were removed together while searching for the distance.
---
 .../persistenceDiagrams/distances/Bottleneck.hh    | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
index 69deecc..537b26e 100644
--- a/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
+++ b/include/aleph/persistenceDiagrams/distances/Bottleneck.hh
@@ -71,11 +71,13 @@ template <class T> struct CheckMatchingCardinality
 
     // The new edge lies behind the edges that are already known, so the
     // surplus edges need to be removed.
-    else
+    else if( it2 < _last )
     {
       do
       {
-        boost::remove_edge( _last->source, _last->target, _graph );
+        // Only remove a single edge. The graph may contain parallel ones
+        // that are not supposed to be removed.
+        boost::remove_edge( boost::edge( _last->source, _last->target, _graph ).first, _graph );
         --_last;
       }
       while( _last != it2 );
@@ -132,6 +134,14 @@ template <
   auto m           = D2.size();
   auto maximumSize = n + m;
 
+  if( maximumSize == 0 )
+    return DataType();
+
+  // The graph below is only guaranteed to permit a perfect matching if
+  // the first diagram is not smaller than the second one.
+  if( n < m )
+    return bottleneckDistance<DataType, Distance>( D2, D1 );
+
   using SizeType = decltype(n);
   using Edge     = detail::Edge<DataType>;
 
-- 
2.43.0


From 3f3623d1605dd9da3eeec75a24403f0ccbe76565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:58:00 +0000
Subject: [PATCH 034/117] fix: skeletons, filters and intersections report
 allocation failures

The functions allocate memory and call functions of the caller, so they
must not be declared noexcept.
---
 include/aleph/topology/Filter.hh        |  2 +-
 include/aleph/topology/Intersections.hh | 10 +++++-----
 include/aleph/topology/Skeleton.hh      |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/aleph/topology/Filter.hh b/include/aleph/topology/Filter.hh
index eafd9c1..b496346 100644
--- a/include/aleph/topology/Filter.hh
+++ b/include/aleph/topology/Filter.hh
@@ -31,7 +31,7 @@ namespace topology
 class Filter
 {
 public:
-  template <class SimplicialComplex, class Functor> SimplicialComplex operator()( const SimplicialComplex& K, Functor f ) const noexcept
+  template <class SimplicialComplex, class Functor> SimplicialComplex operator()( const SimplicialComplex& K, Functor f ) const
   {
     SimplicialComplex L;
 
diff --git a/include/aleph/topology/Intersections.hh b/include/aleph/topology/Intersections.hh
index 0f1ed86..98f74a7 100644
--- a/include/aleph/topology/Intersections.hh
+++ b/include/aleph/topology/Intersections.hh
@@ -21,7 +21,7 @@ namespace topology
   a direct face of another simplex.
 */
 
-template <class Simplex> std::size_t sizeOfIntersection( const Simplex& s, const Simplex& t ) noexcept
+template <class Simplex> std::size_t sizeOfIntersection( const Simplex& s, const Simplex& t )
 {
   using VertexType = typename Simplex::VertexType;
 
@@ -44,7 +44,7 @@ template <class Simplex> std::size_t sizeOfIntersection( const Simplex& s, const
   the simplex is left unspecified. It should be set by the client.
 */
 
-template <class Simplex> Simplex intersect( const Simplex& s, const Simplex& t ) noexcept
+template <class Simplex> Simplex intersect( const Simplex& s, const Simplex& t )
 {
   using VertexType = typename Simplex::VertexType;
 
@@ -69,7 +69,7 @@ template <class Simplex> Simplex intersect( const Simplex& s, const Simplex& t )
   The result of this intersection is a set of simplices.
 */
 
-template <class SimplicialComplex, class Simplex> std::set<Simplex> intersect( const SimplicialComplex& K, const Simplex& s ) noexcept
+template <class SimplicialComplex, class Simplex> std::set<Simplex> intersect( const SimplicialComplex& K, const Simplex& s )
 {
   static_assert( std::is_same<Simplex, typename SimplicialComplex::ValueType>::value,
                  "Simplex type and simplicial complex value type must coincide" );
@@ -113,7 +113,7 @@ template <class SimplicialComplex, class Simplex> std::set<Simplex> intersect( c
   The result of this intersection is a set of simplices.
 */
 
-template <class SimplicialComplex, class Simplex> std::set<Simplex> intersectWithConstrainedDimension( const SimplicialComplex& K, const Simplex& s ) noexcept
+template <class SimplicialComplex, class Simplex> std::set<Simplex> intersectWithConstrainedDimension( const SimplicialComplex& K, const Simplex& s )
 {
   static_assert( std::is_same<Simplex, typename SimplicialComplex::ValueType>::value,
                  "Simplex type and simplicial complex value type must coincide" );
@@ -147,7 +147,7 @@ template <class SimplicialComplex, class Simplex> std::set<Simplex> intersectWit
   @returns Intersection or an empty simplex if there is none
 */
 
-template <class SimplicialComplex, class Simplex> Simplex lastLexicographicalIntersection( const SimplicialComplex& K, const Simplex& s ) noexcept
+template <class SimplicialComplex, class Simplex> Simplex lastLexicographicalIntersection( const SimplicialComplex& K, const Simplex& s )
 {
   using Vertex         = typename Simplex::VertexType;
   using Vector         = std::vector<Vertex>;
diff --git a/include/aleph/topology/Skeleton.hh b/include/aleph/topology/Skeleton.hh
index 8d08ba5..493422c 100644
--- a/include/aleph/topology/Skeleton.hh
+++ b/include/aleph/topology/Skeleton.hh
@@ -32,7 +32,7 @@ public:
     returned skeleton may be empty.
   */
 
-  template <class SimplicialComplex> SimplicialComplex operator()( std::size_t k, const SimplicialComplex& K ) const noexcept
+  template <class SimplicialComplex> SimplicialComplex operator()( std::size_t k, const SimplicialComplex& K ) const
   {
     SimplicialComplex L;
 
-- 
2.43.0


From 324ff46800f190d0b63846863f07601268cc6090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:13 +0000
Subject: [PATCH 035/117] fix: do not read unfinished pairings when averaging
 diagrams in parallel

---
 include/aleph/persistenceDiagrams/Mean.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/persistenceDiagrams/Mean.hh b/include/aleph/persistenceDiagrams/Mean.hh
index 7c9cc38..d5b3658 100644
--- a/include/aleph/persistenceDiagrams/Mean.hh
+++ b/include/aleph/persistenceDiagrams/Mean.hh
@@ -202,7 +202,7 @@ template <class InputIterator> auto mean( InputIterator begin, InputIterator end
 
     #pragma omp critical
     {
-      cost += pairings.back().cost;
+      cost += pairings[i].cost;
     }
   }
 
@@ -276,7 +276,7 @@ template <class InputIterator> auto mean( InputIterator begin, InputIterator end
 
         #pragma omp critical
         {
-          newCost += newPairings.back().cost;
+          newCost += newPairings[i].cost;
         }
       }
 
-- 
2.43.0


From 17811d4d160a68c099779aa0f7bd83bc62df1a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:13 +0000
Subject: [PATCH 036/117] fix: mean of persistence diagrams keeps their
 dimension

---
 include/aleph/persistenceDiagrams/Mean.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/aleph/persistenceDiagrams/Mean.hh b/include/aleph/persistenceDiagrams/Mean.hh
index d5b3658..fe931b5 100644
--- a/include/aleph/persistenceDiagrams/Mean.hh
+++ b/include/aleph/persistenceDiagrams/Mean.hh
@@ -210,6 +210,7 @@ template <class InputIterator> auto mean( InputIterator begin, InputIterator end
   while( !stop )
   {
     PersistenceDiagram Z;
+    Z.setDimension( Y.dimension() );
 
     auto k = Y.size();
     for( decltype(k) i = 0; i < k; i++ )
-- 
2.43.0


From 5dca56c6caede6ecd5219ac8592c46aa7af4097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:13 +0000
Subject: [PATCH 037/117] fix: mean of persistence diagrams ends if pairings
 alternate

---
 include/aleph/persistenceDiagrams/Mean.hh | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/Mean.hh b/include/aleph/persistenceDiagrams/Mean.hh
index fe931b5..a56558d 100644
--- a/include/aleph/persistenceDiagrams/Mean.hh
+++ b/include/aleph/persistenceDiagrams/Mean.hh
@@ -14,6 +14,7 @@
 #include <iterator>
 #include <limits>
 #include <random>
+#include <set>
 #include <stdexcept>
 #include <vector>
 
@@ -44,6 +45,18 @@ struct Pairing
   std::vector<Pair> pairs;
 };
 
+// Extracts the costs of all pairings
+inline std::vector<double> costs( const std::vector<Pairing>& pairings )
+{
+  std::vector<double> result;
+  result.reserve( pairings.size() );
+
+  for( auto&& pairing : pairings )
+    result.push_back( pairing.cost );
+
+  return result;
+}
+
 template <
   class DataType,
   class Distance = aleph::geometry::distances::InfinityDistance<DataType>
@@ -206,6 +219,11 @@ template <class InputIterator> auto mean( InputIterator begin, InputIterator end
     }
   }
 
+  // Stores the costs of all pairings encountered so far. The pairings are
+  // not guaranteed to converge; they may also alternate.
+  std::set< std::vector<double> > knownCosts;
+  knownCosts.insert( detail::costs( pairings ) );
+
   bool stop = false;
   while( !stop )
   {
@@ -281,7 +299,7 @@ template <class InputIterator> auto mean( InputIterator begin, InputIterator end
         }
       }
 
-      if( newPairings == pairings )
+      if( !knownCosts.insert( detail::costs( newPairings ) ).second )
         stop = true;
       else
       {
-- 
2.43.0


From 70f665ac151f374fd2e1dd0d51b46af7cbc317d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:26 +0000
Subject: [PATCH 038/117] fix: release the memory of meshes

---
 include/aleph/topology/Mesh.hh | 37 ++++++++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 8a1b4ee..cedd301 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -191,6 +191,9 @@ public:
   {
     FacePointer face = std::make_shared<Face>();
 
+    if( !_halfEdges )
+      _halfEdges = std::make_shared<HalfEdges>();
+
     // Stores all half-edges created (or found) by this function in the
     // order in which they belong to the face.
     std::vector<HalfEdgePointer> edges;
@@ -216,6 +219,9 @@ public:
         edge      = std::make_shared<HalfEdge>();
         auto pair = std::make_shared<HalfEdge>();
 
+        _halfEdges->edges.push_back( edge );
+        _halfEdges->edges.push_back( pair );
+
         pair->vertex = source; // This is flipped by design: We point to the
                                // target vertex of the flipped edge. This is
                                // just the source vertex again.
@@ -569,6 +575,37 @@ private:
     return _vertices.at( id );
   }
 
+  /**
+    Stores all half-edges. Half-edges, vertices, and faces refer to each
+    other, so they would never be released unless these references are
+    removed as soon as the last mesh that uses them is gone.
+  */
+
+  struct HalfEdges
+  {
+    std::vector<HalfEdgePointer> edges;
+
+    HalfEdges() = default;
+
+    HalfEdges( const HalfEdges& )            = delete;
+    HalfEdges& operator=( const HalfEdges& ) = delete;
+
+    ~HalfEdges()
+    {
+      for( auto&& edge : edges )
+      {
+        edge->face.reset();
+        edge->vertex.reset();
+        edge->next.reset();
+        edge->prev.reset();
+        edge->pair.reset();
+      }
+    }
+  };
+
+  /** Half-edges of the mesh; shared with copies of the mesh */
+  std::shared_ptr<HalfEdges> _halfEdges;
+
   /**
    Stores largest vertex ID. This is required in order to ensure
    that vertex IDs are not assigned multiple times when the user
-- 
2.43.0


From b7df816079a7314472dbe15ba7d3cc006040b2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:32 +0000
Subject: [PATCH 039/117] fix: report all faces of a mesh and of the star of a
 vertex

---
 include/aleph/topology/Mesh.hh | 58 ++++++++++++++++------------------
 1 file changed, 28 insertions(+), 30 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index cedd301..f83fc7f 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -119,19 +119,9 @@ public:
   }
 
   // TODO: Better return type?
-  std::vector< std::vector<Index> > faces() const noexcept
+  std::vector< std::vector<Index> > faces() const
   {
-    std::unordered_set<FacePointer> faces;
-
-    for( auto&& pair : _vertices )
-    {
-      auto&& vertex = pair.second;
-      auto&& edge   = vertex->edge;
-      auto&& face   = edge->face;
-
-      if( face )
-        faces.insert( face );
-    }
+    auto&& faces = this->getFaces();
 
     std::vector< std::vector<Index> > results;
     results.reserve( faces.size() );
@@ -142,21 +132,9 @@ public:
     return results;
   }
 
-  std::size_t numFaces() const noexcept
+  std::size_t numFaces() const
   {
-    std::unordered_set<FacePointer> faces;
-
-    for( auto&& pair : _vertices )
-    {
-      auto&& vertex = pair.second;
-      auto&& edge   = vertex->edge;
-      auto&& face   = edge->face;
-
-      if( face )
-        faces.insert( face );
-    }
-
-    return faces.size();
+    return this->getFaces().size();
   }
 
   // Mesh modification -------------------------------------------------
@@ -522,19 +500,39 @@ private:
     return edges;
   }
 
+  /** Gets all faces of the mesh */
+  std::vector<FacePointer> getFaces() const
+  {
+    std::vector<FacePointer> faces;
+
+    if( !_halfEdges )
+      return faces;
+
+    // Every face refers to exactly one of its half-edges, so it will not
+    // be reported multiple times.
+    for( auto&& edge : _halfEdges->edges )
+    {
+      if( edge->face && edge->face->edge == edge )
+        faces.push_back( edge->face );
+    }
+
+    return faces;
+  }
+
   /** Gets all faces that are incident on a given vertex */
-  std::vector<FacePointer> getFaces( const Vertex& v ) const noexcept
+  std::vector<FacePointer> getFaces( const Vertex& v ) const
   {
     std::vector<FacePointer> faces;
 
     auto edge = v.edge;
     do
     {
-      if( edge && edge->face )
-        faces.push_back( edge->face );
-      else
+      if( !edge )
         break;
 
+      if( edge->face )
+        faces.push_back( edge->face );
+
       edge = edge->pair->next;
     }
     while( edge != v.edge );
-- 
2.43.0


From 3af20a078b57e7cacc82ad0ff2bab40d1bfea7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:32 +0000
Subject: [PATCH 040/117] fix: use all edges when counting connected components
 of a mesh

---
 include/aleph/topology/Mesh.hh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index f83fc7f..aef6a7a 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -435,7 +435,7 @@ public:
   }
 
   /** Counts the number of connected components */
-  std::size_t numConnectedComponents() const noexcept
+  std::size_t numConnectedComponents() const
   {
     auto&& vertices = this->vertices();
 
@@ -443,13 +443,11 @@ public:
 
     for( auto&& vertex : vertices )
     {
-      auto&& v      = _vertices.at( vertex );
-      auto&& e      = v->edge;
-      auto&& source = e->source()->id;
-      auto&& target = e->target()->id;
+      auto&& v = _vertices.at( vertex );
 
       // Actually, the order does not matter one bit here...
-      uf.merge( target, source );
+      for( auto&& neighbour : this->getNeighbours( *v ) )
+        uf.merge( neighbour->id, v->id );
     }
 
     std::vector<Index> roots;
-- 
2.43.0


From 5c2fc854f3ffb5cc6c1c868ffadb9157be680afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:32 +0000
Subject: [PATCH 041/117] fix: default vertex IDs of meshes are unique

---
 include/aleph/topology/Mesh.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index aef6a7a..e48aa27 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -144,7 +144,7 @@ public:
   {
     Vertex v;
 
-    v.id   = id == std::numeric_limits<Index>::max() ? std::max( _vertices.size(), _largestVertexID ) : id;
+    v.id   = id == std::numeric_limits<Index>::max() ? _vertices.empty() ? Index() : _largestVertexID + 1 : id;
     v.x    = x;
     v.y    = y;
     v.z    = z;
-- 
2.43.0


From 5b36aabd4a744aeb95dfba0bcfbca20db7901f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:26:57 +0000
Subject: [PATCH 042/117] fix: follow all boundaries when adding a face to a
 mesh

---
 include/aleph/topology/Mesh.hh | 42 ++++++++--------------------------
 1 file changed, 10 insertions(+), 32 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index e48aa27..56a6710 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -256,43 +256,21 @@ public:
 
     // Extend boundary -------------------------------------------------
     //
-    // Traverse all vertices whose paired edges have an empty face. Any
-    // of these edges is part of the boundary face.
+    // Traverse all edges with an empty face. Any of these edges is part
+    // of the boundary face. Its successor is found by rotating around
+    // its target vertex.
 
-    for( auto&& pair : _vertices )
+    for( auto&& edge : _halfEdges->edges )
     {
-      auto&& vertex = pair.second;
-
-      if( !vertex->edge || vertex->edge->pair->face )
+      if( edge->face )
         continue;
 
-      auto curr = vertex->edge->target();
-      auto edge = vertex->edge->pair;
-
-      do
-      {
-        assert( !edge->face );
-        auto edges = this->getEdges( *curr );
-
-        for( auto&& e : edges )
-        {
-          if( !e->pair->face )
-          {
-            e->pair->next = edge;
-            edge->prev    = e->pair;
-
-            edge          = e->pair;
-            curr          = e->pair->pair->target();
-            break;
-          }
-        }
-      }
-      while( curr != vertex );
+      auto next = edge->pair;
+      while( next->face )
+        next = next->prev->pair;
 
-      // Close the loop around the boundary face by adding a pointer to
-      // the identified edge.
-      vertex->edge->pair->next = edge;
-      edge->prev               = vertex->edge->pair;
+      edge->next = next;
+      next->prev = edge;
     }
   }
 
-- 
2.43.0


From d9eb14c770c2136138ff7b67c8c80755ee35cbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:27:36 +0000
Subject: [PATCH 043/117] fix: meshes are not damaged by faces that cannot be
 added

---
 include/aleph/topology/Mesh.hh | 67 ++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 19 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 56a6710..4650554 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -102,7 +102,7 @@ public:
 
   // Mesh attributes ---------------------------------------------------
 
-  std::vector<Index> vertices() const noexcept
+  std::vector<Index> vertices() const
   {
     std::vector<Index> result;
     result.reserve( _vertices.size() );
@@ -172,12 +172,47 @@ public:
     if( !_halfEdges )
       _halfEdges = std::make_shared<HalfEdges>();
 
+    auto n = static_cast<std::size_t>( std::distance( begin, end ) );
+
     // Stores all half-edges created (or found) by this function in the
-    // order in which they belong to the face.
+    // order in which they belong to the face. An edge that was created
+    // is followed by its pair in the second list.
     std::vector<HalfEdgePointer> edges;
-    edges.reserve( static_cast<std::size_t>( std::distance( begin, end ) ) );
+    std::vector<HalfEdgePointer> newEdges;
+
+    edges.reserve( n );
+    newEdges.reserve( 2*n );
 
+    // Find or create all edges first. The mesh must not be changed until
+    // nothing can fail anymore.
     for( InputIterator it = begin; it != end; ++it )
+    {
+      auto next = std::next( it );
+
+      if( next == end )
+        next = begin;
+
+      auto edge = getEdge( *it, *next );
+
+      if( !edge )
+      {
+        edge = std::make_shared<HalfEdge>();
+
+        newEdges.push_back( edge );
+        newEdges.push_back( std::make_shared<HalfEdge>() );
+      }
+
+      assert( !edge->face );
+      edges.push_back( edge );
+    }
+
+    _halfEdges->edges.insert( _halfEdges->edges.end(),
+                              newEdges.begin(), newEdges.end() );
+
+    auto itFound   = edges.begin();
+    auto itNewEdge = newEdges.begin();
+
+    for( InputIterator it = begin; it != end; ++it, ++itFound )
     {
       auto curr = it;
       auto next = std::next( it );
@@ -187,18 +222,15 @@ public:
 
       auto source = _vertices.at( *curr );   // Edge source vertex
       auto target = _vertices.at( *next );   // Edge target vertex
-      auto edge   = getEdge( *curr, *next ); // Edge
+      auto edge   = *itFound;                // Edge
 
       // Case 1: A new edge. Create a new edge and a new pair. Set edges
       // of source and target vertex correctly. Moreover, initialize the
       // paired edge with sensible default values.
-      if( !edge )
+      if( itNewEdge != newEdges.end() && edge == *itNewEdge )
       {
-        edge      = std::make_shared<HalfEdge>();
-        auto pair = std::make_shared<HalfEdge>();
-
-        _halfEdges->edges.push_back( edge );
-        _halfEdges->edges.push_back( pair );
+        auto pair = *std::next( itNewEdge );
+        std::advance( itNewEdge, 2 );
 
         pair->vertex = source; // This is flipped by design: We point to the
                                // target vertex of the flipped edge. This is
@@ -221,13 +253,10 @@ public:
       if( !face->edge )
         face->edge = edge;
 
-      assert( !edge->face );
       assert(  edge->pair );
 
       edge->face   = face;
       edge->vertex = target;
-
-      edges.push_back( edge );
     }
 
     // Set 'next' and 'prev' pointers correctly ------------------------
@@ -332,7 +361,7 @@ public:
     in an order that is consistent with the orientation of the mesh.
   */
 
-  std::vector<Index> link( Index id ) const noexcept
+  std::vector<Index> link( Index id ) const
   {
     auto&& vertex     = this->getVertex( id );
     auto&& neighbours = this->getNeighbours( *vertex );
@@ -346,7 +375,7 @@ public:
     return result;
   }
 
-  std::vector<Index> getLowerNeighbours( Index id ) const noexcept
+  std::vector<Index> getLowerNeighbours( Index id ) const
   {
     auto&& vertex     = this->getVertex( id );
     auto&& neighbours = this->getNeighbours( *vertex );
@@ -371,7 +400,7 @@ public:
     return result;
   }
 
-  std::vector<Index> getHigherNeighbours( Index id ) const noexcept
+  std::vector<Index> getHigherNeighbours( Index id ) const
   {
     auto&& vertex     = this->getVertex( id );
     auto&& neighbours = this->getNeighbours( *vertex );
@@ -437,7 +466,7 @@ public:
 private:
 
   /** Gets all vertices that are adjacent to a given vertex */
-  std::vector<VertexPointer> getNeighbours( const Vertex& v ) const noexcept
+  std::vector<VertexPointer> getNeighbours( const Vertex& v ) const
   {
     std::vector<VertexPointer> neighbours;
 
@@ -457,7 +486,7 @@ private:
   }
 
   /** Gets all edges that are incident on a given vertex. */
-  std::vector<HalfEdgePointer> getEdges( const Vertex& v ) const noexcept
+  std::vector<HalfEdgePointer> getEdges( const Vertex& v ) const
   {
     std::vector<HalfEdgePointer> edges;
 
@@ -521,7 +550,7 @@ private:
     a pointer to the edge is being returned.
   */
 
-  HalfEdgePointer getEdge( Index u, Index v ) const noexcept
+  HalfEdgePointer getEdge( Index u, Index v ) const
   {
     auto source = _vertices.at(u);           // Edge source vertex
     auto target = _vertices.at(v);           // Edge target vertex
-- 
2.43.0


From 8e7612a4938ab2bd5e902301b7754a202a19f078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:28:56 +0000
Subject: [PATCH 044/117] fix: faces of a mesh may be added in any order

---
 include/aleph/topology/Mesh.hh | 27 ++++-----------------------
 1 file changed, 4 insertions(+), 23 deletions(-)

diff --git a/include/aleph/topology/Mesh.hh b/include/aleph/topology/Mesh.hh
index 4650554..15538ea 100644
--- a/include/aleph/topology/Mesh.hh
+++ b/include/aleph/topology/Mesh.hh
@@ -485,26 +485,6 @@ private:
     return neighbours;
   }
 
-  /** Gets all edges that are incident on a given vertex. */
-  std::vector<HalfEdgePointer> getEdges( const Vertex& v ) const
-  {
-    std::vector<HalfEdgePointer> edges;
-
-    auto edge = v.edge;
-    do
-    {
-      if( edge )
-        edges.push_back( edge );
-      else
-        break;
-
-      edge = edge->pair->next;
-    }
-    while( edge != v.edge );
-
-    return edges;
-  }
-
   /** Gets all faces of the mesh */
   std::vector<FacePointer> getFaces() const
   {
@@ -554,15 +534,16 @@ private:
   {
     auto source = _vertices.at(u);           // Edge source vertex
     auto target = _vertices.at(v);           // Edge target vertex
-    auto edges  = this->getEdges( *source ); // Incident edges
 
-    auto itEdge = std::find_if( edges.begin(), edges.end(),
+    // Not all edges of a vertex can be reached from it until all faces
+    // around the vertex have been added, so all edges have to be used.
+    auto itEdge = std::find_if( _halfEdges->edges.begin(), _halfEdges->edges.end(),
                                 [&source, &target] ( const HalfEdgePointer& edge )
                                 {
                                   return edge->source() == source && edge->target() == target;
                                 } );
 
-    if( itEdge != edges.end() )
+    if( itEdge != _halfEdges->edges.end() )
       return *itEdge;
     else
       return nullptr;
-- 
2.43.0


From 219ba580c0d4d700bea9f7d36d1c3595c4e327e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:13 +0000
Subject: [PATCH 045/117] fix: bootstrap intervals for a confidence level of
 one

---
 include/aleph/math/Bootstrap.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/aleph/math/Bootstrap.hh b/include/aleph/math/Bootstrap.hh
index 1e6ccae..e142c0b 100644
--- a/include/aleph/math/Bootstrap.hh
+++ b/include/aleph/math/Bootstrap.hh
@@ -234,8 +234,10 @@ public:
     // This accounts for rounding and works regardless of whether
     // the product samples * alpha is an integer or not. Note the
     // offset of -1. It is required because, say, the 100th value
-    // is at index 99 of the vector.
-    return static_cast<unsigned>( std::ceil( samples * alpha ) ) - 1;
+    // is at index 99 of the vector. The 0th percentile is the first
+    // value.
+    auto position = static_cast<unsigned>( std::ceil( samples * alpha ) );
+    return position > 0 ? position - 1 : 0;
   }
 };
 
-- 
2.43.0


From 719d94719e4b5e53343d8c56c386690cf2240304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:30 +0000
Subject: [PATCH 046/117] fix: number of landmarks is respected

---
 include/aleph/geometry/WitnessComplex.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/aleph/geometry/WitnessComplex.hh b/include/aleph/geometry/WitnessComplex.hh
index cbb4d9f..6ae0f8c 100644
--- a/include/aleph/geometry/WitnessComplex.hh
+++ b/include/aleph/geometry/WitnessComplex.hh
@@ -222,6 +222,9 @@ template <
 
 template <class T, class OutputIterator> void generateRandomLandmarks( T n, T k, OutputIterator result )
 {
+  if( k > n )
+    throw std::out_of_range( "Number of landmarks is out of range" );
+
   std::random_device rd;
   std::mt19937 rng( rd() );
 
@@ -257,6 +260,9 @@ template <
   if( n > container.size() )
     throw std::out_of_range( "Number of landmarks is out of range" );
 
+  if( n == 0 )
+    return;
+
   using SizeType = decltype( container.size() );
 
   std::random_device rd;
-- 
2.43.0


From d6b5cc30f51eb63465f067df91458400a94c24e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:15 +0000
Subject: [PATCH 047/117] fix: do not open files in order to learn whether they
 exist

---
 include/aleph/utilities/Filesystem.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/aleph/utilities/Filesystem.hh b/include/aleph/utilities/Filesystem.hh
index 4cf9486..21cdf9e 100644
--- a/include/aleph/utilities/Filesystem.hh
+++ b/include/aleph/utilities/Filesystem.hh
@@ -119,11 +119,18 @@ bool isSocket( const std::string& path )
 /** Checks whether a path or a file exists */
 bool exists( const std::string& path )
 {
+#ifdef POSIX_VERSION_COMPATIBLE
+  // There is no need to open the file in order to learn that it exists. For
+  // some files, such as named pipes, this might even wait indefinitely.
+  struct stat info;
+  return stat( path.c_str(), &info ) == 0;
+#else
   return    isDirectory( path )
          || isRegularFile( path )
          || isSocket( path )
          || ( std::ifstream( path ) ); // fall-back in case no other queries are available;
                                        // we just try to open the file instead
+#endif
 }
 
 /** Returns the basename, i.e the filename portion, of a path */
-- 
2.43.0


From 998cf9cb36bb4a48ce7d40227b993965a8199515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:15 +0000
Subject: [PATCH 048/117] fix: do not leak the buffer of a file name if memory
 runs out

---
 include/aleph/utilities/Filesystem.hh | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/aleph/utilities/Filesystem.hh b/include/aleph/utilities/Filesystem.hh
index 21cdf9e..60a1762 100644
--- a/include/aleph/utilities/Filesystem.hh
+++ b/include/aleph/utilities/Filesystem.hh
@@ -38,7 +38,9 @@
 #endif
 
 #include <fstream>
+#include <string>
 #include <utility>
+#include <vector>
 
 namespace aleph
 {
@@ -143,22 +145,17 @@ std::string basename( const std::string& path )
 
 #if defined(_POSIX_VERSION) && _POSIX_VERSION >= 200112L
 
-  char* buffer = new char[ path.size() + 1 ];
-  std::copy( path.begin(), path.end(), buffer );
+  std::vector<char> buffer( path.begin(), path.end() );
+  buffer.push_back( '\0' ); // `basename()` expects the string to be
+                            // null-terminated
 
-  buffer[ path.size() ] = '\0'; // `basename()` expects the string to be
-                                // null-terminated
-
-  char* name = ::basename( buffer );
+  char* name = ::basename( buffer.data() );
   if( name )
     result = name;
 
   // `basename()` is guaranteed not to allocate _more_ memory. It might possibly
   // return a pointer to statically allocated memory (which we must not free) or
   // to parts of the input `path` pointer.
-  //
-  // Freeing said pointer is thus sufficient.
-  delete[] buffer;
 
 #else
   #error "No compatible implementation of 'basename' available"
-- 
2.43.0


From 5656a621b48b3727320e5807621b62c04b6abba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:15 +0000
Subject: [PATCH 049/117] fix: do not modify algebraic spheres upon queries

---
 include/aleph/math/AlgebraicSphere.hh | 52 ++++++++++-----------------
 1 file changed, 18 insertions(+), 34 deletions(-)

diff --git a/include/aleph/math/AlgebraicSphere.hh b/include/aleph/math/AlgebraicSphere.hh
index c60607e..51b06e7 100644
--- a/include/aleph/math/AlgebraicSphere.hh
+++ b/include/aleph/math/AlgebraicSphere.hh
@@ -2,7 +2,6 @@
 #define ALEPH_MATH_ALGEBRAIC_SPHERE_HH__
 
 #include <algorithm>
-#include <limits>
 #include <numeric>
 #include <stdexcept>
 #include <vector>
@@ -40,38 +39,29 @@ public:
   }
 
   /** Calculates and returns the centre of the sphere */
-  std::vector<T> centre() const noexcept
+  std::vector<T> centre() const
   {
-    if( _centre.empty() )
-    {
-      auto s = _coefficients.back();
-      auto c = std::vector<T>( _coefficients.begin() + 1,
-                               _coefficients.end()   - 1);
-
-      std::transform( c.begin(), c.end(), c.begin(),
-        [&s] ( T x )
-        {
-          return x / (2*s);
-        }
-      );
-
-      _centre = c;
-    }
-
-    return _centre;
+    auto s = _coefficients.back();
+    auto c = std::vector<T>( _coefficients.begin() + 1,
+                             _coefficients.end()   - 1);
+
+    std::transform( c.begin(), c.end(), c.begin(),
+      [&s] ( T x )
+      {
+        return x / (2*s);
+      }
+    );
+
+    return c;
   }
 
   /** Calculates and returns the radius of the sphere */
-  T radius() const noexcept
+  T radius() const
   {
-    if( !std::isfinite( _radius ) )
-    {
-      auto c  = this->centre();
-      auto n  = std::inner_product( c.begin(), c.end(), c.begin(), T() );
-      _radius = std::sqrt( n - _coefficients.front() / _coefficients.back() );
-    }
-
-    return _radius;
+    auto c = this->centre();
+    auto n = std::inner_product( c.begin(), c.end(), c.begin(), T() );
+
+    return std::sqrt( n - _coefficients.front() / _coefficients.back() );
   }
 
   /** Calculates and returns the Gaussian curvature of the sphere */
@@ -102,12 +92,6 @@ public:
 
 private:
 
-  /** Radius */
-  mutable T _radius = std::numeric_limits<T>::quiet_NaN();
-
-  /** Centre */
-  mutable std::vector<T> _centre;
-
   /** Sphere coefficients */
   std::vector<T> _coefficients;
 };
-- 
2.43.0


From d47a128096ff931d2bbb37f9a8ccbfdd913bd008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:28 +0000
Subject: [PATCH 050/117] fix: report lack of memory when converting strings

---
 include/aleph/utilities/String.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/utilities/String.hh b/include/aleph/utilities/String.hh
index 6697ab9..ff3ed95 100644
--- a/include/aleph/utilities/String.hh
+++ b/include/aleph/utilities/String.hh
@@ -105,6 +105,7 @@ template <class T> std::vector<T> splitByWhitespace( const T& sequence )
   std::vector<T> tokens;
 
   std::istringstream iss( sequence );
+  iss.exceptions( std::ios::badbit ); // reports that there is not enough memory
 
   std::copy( std::istream_iterator<T>( iss ),
              std::istream_iterator<T>(),
@@ -123,6 +124,7 @@ template <class T> std::vector<T> splitByWhitespace( const T& sequence )
 template <class T> std::size_t countTokens( const T& sequence )
 {
   std::istringstream iss( sequence );
+  iss.exceptions( std::ios::badbit ); // reports that there is not enough memory
 
   return static_cast<std::size_t>(
     std::distance( std::istream_iterator<T>( iss ),
@@ -151,6 +153,7 @@ template <class T, class S> T convert( const S& sequence, bool& success )
   success  = false;
 
   std::istringstream converter( sequence );
+  converter.exceptions( std::ios::badbit ); // reports that there is not enough memory
   converter >> result;
 
   // Try some special handling for some special tokens. Other errors are
-- 
2.43.0


From adcfe160a9340c3aa1fcf84e64aaaef1bfb94045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:28 +0000
Subject: [PATCH 051/117] fix: do not terminate if memory runs out while
 reading a triangulation

---
 include/aleph/topology/io/LexicographicTriangulation.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/LexicographicTriangulation.hh b/include/aleph/topology/io/LexicographicTriangulation.hh
index 180f7f6..8440600 100644
--- a/include/aleph/topology/io/LexicographicTriangulation.hh
+++ b/include/aleph/topology/io/LexicographicTriangulation.hh
@@ -138,7 +138,7 @@ private:
     Upon success, a non-empty simplicial complex is returned.
   */
 
-  template <class SimplicialComplex> static SimplicialComplex parseBlock( const std::string& block ) noexcept
+  template <class SimplicialComplex> static SimplicialComplex parseBlock( const std::string& block )
   {
     // Sanity check
     if( !isBlockFinished( block ) )
-- 
2.43.0


From f166434d9528af23bd21a76d1764d5ad4265880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:28 +0000
Subject: [PATCH 052/117] fix: do not change the complex if memory runs out
 while sorting it

---
 include/aleph/topology/io/AdjacencyMatrix.hh          | 6 ++++--
 include/aleph/topology/io/BipartiteAdjacencyMatrix.hh | 6 ++++--
 include/aleph/topology/io/FlexSpectrum.hh             | 7 +++++--
 include/aleph/topology/io/PLY.hh                      | 8 +++++---
 4 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/include/aleph/topology/io/AdjacencyMatrix.hh b/include/aleph/topology/io/AdjacencyMatrix.hh
index 96746d9..d65897d 100644
--- a/include/aleph/topology/io/AdjacencyMatrix.hh
+++ b/include/aleph/topology/io/AdjacencyMatrix.hh
@@ -258,14 +258,16 @@ public:
       );
     }
 
-    K = SimplicialComplex( simplices.begin(), simplices.end() );
+    SimplicialComplex L( simplices.begin(), simplices.end() );
 
     // Establish filtration order based on weights. There does not seem
     // to be much of a point to make this configurable; the edge weight
     // is a given property of the data.
-    K.sort(
+    L.sort(
       filtrations::Data<Simplex>()
     );
+
+    K = std::move( L );
   }
 
   /** @returns Dimension of matrix that was read last */
diff --git a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
index 0c3f499..cb7e87d 100644
--- a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
@@ -202,14 +202,16 @@ public:
       );
     }
 
-    K = SimplicialComplex( simplices.begin(), simplices.end() );
+    SimplicialComplex L( simplices.begin(), simplices.end() );
 
     // Establish filtration order based on weights. There does not seem
     // to be much of a point to make this configurable; the edge weight
     // is a given property of the data.
-    K.sort(
+    L.sort(
       filtrations::Data<Simplex>()
     );
+
+    K = std::move( L );
   }
 
   /** @returns Height of matrix that was read last */
diff --git a/include/aleph/topology/io/FlexSpectrum.hh b/include/aleph/topology/io/FlexSpectrum.hh
index dfa4193..d7f587d 100644
--- a/include/aleph/topology/io/FlexSpectrum.hh
+++ b/include/aleph/topology/io/FlexSpectrum.hh
@@ -60,6 +60,7 @@ public:
         continue;
 
       std::stringstream converter( line );
+      converter.exceptions( std::ios::badbit ); // reports that there is not enough memory
 
       double x   = 0.0;
       DataType y = DataType();
@@ -113,11 +114,13 @@ public:
         pair.second = pair.second / totalIntensity;
     }
 
-    K = SimplicialComplex( simplices.begin(), simplices.end() );
-    K.sort(
+    SimplicialComplex L( simplices.begin(), simplices.end() );
+    L.sort(
       aleph::topology::filtrations::Data<Simplex,
                                          std::greater<DataType> >()
     );
+
+    K = std::move( L );
   }
 
   bool normalize() const noexcept
diff --git a/include/aleph/topology/io/PLY.hh b/include/aleph/topology/io/PLY.hh
index 4b74ea5..4db3032 100644
--- a/include/aleph/topology/io/PLY.hh
+++ b/include/aleph/topology/io/PLY.hh
@@ -359,9 +359,11 @@ public:
 
     in.close();
 
-    K = SimplicialComplex( simplices.begin(), simplices.end() );
-    K.recalculateWeights();
-    K.sort( filtrations::Data<Simplex>() );
+    SimplicialComplex L( simplices.begin(), simplices.end() );
+    L.recalculateWeights();
+    L.sort( filtrations::Data<Simplex>() );
+
+    K = std::move( L );
   }
 
   /* Sets the property to read for every simplex */
-- 
2.43.0


From fddb2ea25d93ec3117130f6308bb287df9802688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:28 +0000
Subject: [PATCH 053/117] fix: do not change boundary matrix and values if
 memory runs out while reading a function

---
 include/aleph/topology/io/Function.hh | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/Function.hh b/include/aleph/topology/io/Function.hh
index c5d266c..5657f58 100644
--- a/include/aleph/topology/io/Function.hh
+++ b/include/aleph/topology/io/Function.hh
@@ -27,12 +27,16 @@ template <
   class DataType,
   class Representation
 > void loadFunction( const std::string& filename,
-                     BoundaryMatrix<Representation>& boundaryMatrix,
-                     std::vector<DataType>& functionValues )
+                     BoundaryMatrix<Representation>& resultMatrix,
+                     std::vector<DataType>& resultValues )
 {
   using BoundaryMatrix = BoundaryMatrix<Representation>;
   using Index          = typename BoundaryMatrix::Index;
 
+  // The results are only changed once everything has been read
+  BoundaryMatrix boundaryMatrix;
+  std::vector<DataType> functionValues;
+
   std::ifstream in( filename );
 
   if( !in )
@@ -126,6 +130,9 @@ template <
 
     functionValues.swap( newFunctionValues );
   }
+
+  resultMatrix = std::move( boundaryMatrix );
+  resultValues.swap( functionValues );
 }
 
 /**
@@ -211,6 +218,7 @@ template <class SimplicialComplex, class Functor> std::vector<SimplicialComplex>
     std::vector<DataType> functionValues;
 
     std::istringstream stream( line );
+    stream.exceptions( std::ios::badbit ); // reports that there is not enough memory
 
     std::copy( std::istream_iterator<DataType>( stream ),
                std::istream_iterator<DataType>(),
-- 
2.43.0


From 873cc85adfb6ef62d738618effff1ffcb4b803b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:21:28 +0000
Subject: [PATCH 054/117] fix: report lack of memory when writing GML files

---
 include/aleph/topology/io/GML.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index 6d500cd..8fcc269 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -531,6 +531,9 @@ public:
     std::ostringstream streamNodes;
     std::ostringstream streamEdges;
 
+    streamNodes.exceptions( std::ios::badbit ); // report that there is not enough memory
+    streamEdges.exceptions( std::ios::badbit );
+
     for( auto&& simplex : K )
     {
       if( simplex.dimension() == 0 )
-- 
2.43.0


From c38f324afc42e89795c0a3109b4dcb669a600fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:57 +0000
Subject: [PATCH 055/117] fix: do not terminate or change the complex if memory
 runs out while reading labels

---
 include/aleph/topology/io/GML.hh                     | 2 +-
 include/aleph/topology/io/GraphML.hh                 | 2 +-
 include/aleph/topology/io/Pajek.hh                   | 2 +-
 include/aleph/topology/io/SimplicialComplexReader.hh | 8 ++++++--
 4 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/aleph/topology/io/GML.hh b/include/aleph/topology/io/GML.hh
index 8fcc269..f9edcd4 100644
--- a/include/aleph/topology/io/GML.hh
+++ b/include/aleph/topology/io/GML.hh
@@ -415,7 +415,7 @@ public:
     zero-indexed.
   */
 
-  template <class VertexType> std::map<std::string, VertexType> id_to_index() const noexcept
+  template <class VertexType> std::map<std::string, VertexType> id_to_index() const
   {
     std::set<std::string> nodeIDs;
     for( auto&& node : _nodes )
diff --git a/include/aleph/topology/io/GraphML.hh b/include/aleph/topology/io/GraphML.hh
index 92db207..59857bb 100644
--- a/include/aleph/topology/io/GraphML.hh
+++ b/include/aleph/topology/io/GraphML.hh
@@ -302,7 +302,7 @@ public:
     zero-indexed.
   */
 
-  template <class VertexType> std::map<std::string, VertexType> id_to_index() const noexcept
+  template <class VertexType> std::map<std::string, VertexType> id_to_index() const
   {
     std::set<std::string> nodeIDs;
     for( auto&& node : _nodes )
diff --git a/include/aleph/topology/io/Pajek.hh b/include/aleph/topology/io/Pajek.hh
index 53e18bb..81c9137 100644
--- a/include/aleph/topology/io/Pajek.hh
+++ b/include/aleph/topology/io/Pajek.hh
@@ -173,7 +173,7 @@ public:
     K = SimplicialComplex( simplices.begin(), simplices.end() );
   }
 
-  std::map<std::string, std::string> getLabelMap() const noexcept
+  std::map<std::string, std::string> getLabelMap() const
   {
     return _labels;
   }
diff --git a/include/aleph/topology/io/SimplicialComplexReader.hh b/include/aleph/topology/io/SimplicialComplexReader.hh
index c73a026..b31fe04 100644
--- a/include/aleph/topology/io/SimplicialComplexReader.hh
+++ b/include/aleph/topology/io/SimplicialComplexReader.hh
@@ -106,11 +106,13 @@ public:
     if( extension == ".gml" )
     {
       GMLReader reader;
-      reader( filename, K );
+      SimplicialComplex L;
+      reader( filename, L );
 
       using VertexType = typename SimplicialComplex::ValueType::VertexType;
 
       _labels = getLabels( reader.getNodeAttribute( _labelAttribute ), reader.id_to_index<VertexType>() );
+      K       = std::move( L );
     }
 
     // The HDF5 parser permits the use of a functor that assigns
@@ -126,7 +128,8 @@ public:
     else if( extension == ".net" )
     {
       PajekReader reader;
-      reader( filename, K );
+      SimplicialComplex L;
+      reader( filename, L );
 
       // The map is sorted by strings, whereas the labels are supposed to
       // follow the order of vertices.
@@ -135,6 +138,7 @@ public:
         labels[ aleph::utilities::convert<unsigned long>( pair.first ) ] = pair.second;
 
       _labels = getLabels( labels );
+      K       = std::move( L );
     }
 
     // For PLY files, the parser supports optionally reading a property
-- 
2.43.0


From 9e5e53a6fd45908bbf0581d62ec3f9e7fc383f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:09 +0000
Subject: [PATCH 056/117] fix: raise Wasserstein and bottleneck distances to a
 power before taking the root

The pairwise distance tool sums the p-th powers of the distances over all
dimensions and takes the p-th root at the end. The two distances were not
raised to the power first, so the tool printed roots of them.
---
 src/tools/topological_distance.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index dc3a86b..ee48777 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -691,12 +691,12 @@ int main( int argc, char** argv )
         useWassersteinDistance
         ? [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double p )
              {
-               return aleph::distances::wassersteinDistance( D1, D2, p );
+               return std::pow( aleph::distances::wassersteinDistance( D1, D2, p ), p );
              }
         : useBottleneckDistance
-          ? [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double )
+          ? [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double p )
                {
-                 return aleph::distances::bottleneckDistance( D1, D2 );
+                 return std::pow( aleph::distances::bottleneckDistance( D1, D2 ), p );
                }
           : [] ( const PersistenceDiagram& D1, const PersistenceDiagram& D2, double p )
                {
-- 
2.43.0


From bc406eb72308488f17c6161ec0732ff62cb03812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:23 +0000
Subject: [PATCH 057/117] fix: compare diagrams with missing diagrams of the
 same dimension

If one of the data sets had no diagram in some dimension, the pairwise
distance tool compared the diagrams of other data sets with a diagram of
dimension zero. The Wasserstein distance rejects this, so the tool ended.
---
 src/tools/topological_distance.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index ee48777..97a6c26 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -282,10 +282,15 @@ double persistenceDiagramDistance( const std::vector<DataSet>& dataSet1,
                               return dataSet.dimension == dimension;
                             } );
 
+    PersistenceDiagram result;
+
     if( it != dataSet.end() )
-      return PersistenceDiagram( it->persistenceDiagram );
-    else
-      return PersistenceDiagram();
+      result = it->persistenceDiagram;
+
+    // Some distances are only defined for diagrams of equal dimension. This
+    // has to include the diagrams that are missing from a data set.
+    result.setDimension( dimension );
+    return result;
   };
 
   double d = 0.0;
-- 
2.43.0


From 4060299d1dee2b75045ecee843bab3c7f7ddbf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:23 +0000
Subject: [PATCH 058/117] fix: report unreadable lists of diagrams

The pairwise distance tool used the files it had found so far if the list
could not be read, and accessed an element that does not exist if there was
none at all.
---
 src/tools/topological_distance.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index 97a6c26..2df32e8 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -545,6 +545,12 @@ int main( int argc, char** argv )
       std::string line;
       while( std::getline( in, line ) )
         filenames.push_back( line );
+
+      if( in.bad() || filenames.empty() )
+      {
+        std::cerr << "Error: unable to read filenames from '" << filename << "'\n";
+        return -1;
+      }
     }
 
     // If the first filename is a text file, I am assuming that the rest
-- 
2.43.0


From 9176eab127a1e48a9d632bf5d634e9e78158799b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:23 +0000
Subject: [PATCH 059/117] fix: report a distance matrix that could not be
 written

The pairwise distance tool ended successfully even if its output could not
be written, for example because the disk was full.
---
 src/tools/topological_distance.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/topological_distance.cc b/src/tools/topological_distance.cc
index 2df32e8..cff0478 100644
--- a/src/tools/topological_distance.cc
+++ b/src/tools/topological_distance.cc
@@ -790,6 +790,12 @@ int main( int argc, char** argv )
 
   storeMatrix( distances, std::cout );
 
+  if( !std::cout.flush() )
+  {
+    std::cerr << "Error: unable to write matrix\n";
+    return -1;
+  }
+
   std::cerr << "finished\n";
 
   std::cerr << "Data sets were processed in the following order:\n";
-- 
2.43.0


From 8cc2f508b0bf303973ae6cbd5ed292b357cf7d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:14 +0000
Subject: [PATCH 060/117] fix: do not fail for diagrams without points in
 make_signature

The number of distances to reserve memory for was calculated as (n*n-1)/2.
For an empty diagram this wraps around, so the tool ended with an exception.
---
 src/tools/make_signature.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/make_signature.cc b/src/tools/make_signature.cc
index e33ccce..90f467c 100644
--- a/src/tools/make_signature.cc
+++ b/src/tools/make_signature.cc
@@ -78,7 +78,7 @@ std::vector<DataType> makeSignature( const PersistenceDiagram& D )
   // All pairwise distances with potential repetitions for points that
   // are well outside the influence radius of other points.
   std::vector<DataType> distances;
-  distances.reserve( ( D.size() * D.size() - 1 ) / 2 );
+  distances.reserve( D.size() * D.size() / 2 );
 
   for( auto it1 = D.begin(); it1 != D.end(); ++it1 )
   {
-- 
2.43.0


From 296b19aec94a6ff9f2072f65ba609c45b75c715e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:14 +0000
Subject: [PATCH 061/117] fix: report output errors in make_signature

---
 src/tools/make_signature.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/make_signature.cc b/src/tools/make_signature.cc
index 90f467c..69e7d6d 100644
--- a/src/tools/make_signature.cc
+++ b/src/tools/make_signature.cc
@@ -195,4 +195,10 @@ int main( int argc, char** argv)
 
     printSignature( signature.begin(), signature.end(), std::cout );
   }
+
+  if( !std::cout.flush() )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
 }
-- 
2.43.0


From ff963a6c80f294daa708925379a96806e75fff11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:14 +0000
Subject: [PATCH 062/117] fix: report output errors in
 persistence_diagram_entropies

---
 src/tools/persistence_diagram_entropies.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/persistence_diagram_entropies.cc b/src/tools/persistence_diagram_entropies.cc
index 235a9f1..bbc9620 100644
--- a/src/tools/persistence_diagram_entropies.cc
+++ b/src/tools/persistence_diagram_entropies.cc
@@ -69,4 +69,10 @@ int main( int argc, char** argv )
 
     std::cout << e_nn << "\t" << e_rg << "\t" << e_pe << "\n";
   }
+
+  if( !std::cout.flush() )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
 }
-- 
2.43.0


From 2a8cdac40f24895581b29d3290331a90e8c9fc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:14 +0000
Subject: [PATCH 063/117] fix: report output errors in
 persistence_diagram_statistics

---
 src/tools/persistence_diagram_statistics.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/persistence_diagram_statistics.cc b/src/tools/persistence_diagram_statistics.cc
index 510e549..b31c518 100644
--- a/src/tools/persistence_diagram_statistics.cc
+++ b/src/tools/persistence_diagram_statistics.cc
@@ -220,4 +220,10 @@ int main( int argc, char** argv )
               << infinityNorm                    << ","
               << averagePersistence              << "\n";
   }
+
+  if( !std::cout.flush() )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
 }
-- 
2.43.0


From 9f6b6d2b2b170866b26aaab6d09cd14163f938e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:14 +0000
Subject: [PATCH 064/117] fix: report output errors in
 persistence_indicator_function

---
 src/tools/persistence_indicator_function.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tools/persistence_indicator_function.cc b/src/tools/persistence_indicator_function.cc
index 9195eaa..d1dc3bc 100644
--- a/src/tools/persistence_indicator_function.cc
+++ b/src/tools/persistence_indicator_function.cc
@@ -13,6 +13,7 @@
 #include <algorithm>
 #include <iostream>
 #include <limits>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -156,6 +157,10 @@ int main( int argc, char** argv )
 
     std::ofstream out( outputFilename );
     out << f << "\n";
+    out.close();
+
+    if( !out )
+      throw std::runtime_error( "Unable to write output file" );
 
     persistenceIndicatorFunctions.emplace_back( f );
 
@@ -173,6 +178,10 @@ int main( int argc, char** argv )
 
     std::ofstream out( outputFilename );
     out << mean << "\n";
+    out.close();
+
+    if( !out )
+      throw std::runtime_error( "Unable to write output file" );
 
     // Since Y is supposed to be a random variable at this point, this
     // nomenclature makes sense.
-- 
2.43.0


From bd3c7b5347cf0c0df1b2cd4a9dc15f8366d36926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:14 +0000
Subject: [PATCH 065/117] fix: report output errors in
 persistence_indicator_function_confidence_sets

---
 src/tools/persistence_indicator_function_confidence_sets.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/persistence_indicator_function_confidence_sets.cc b/src/tools/persistence_indicator_function_confidence_sets.cc
index cd6f2d9..ec5077a 100644
--- a/src/tools/persistence_indicator_function_confidence_sets.cc
+++ b/src/tools/persistence_indicator_function_confidence_sets.cc
@@ -160,4 +160,8 @@ int main( int argc, char** argv )
       << fUpper        << "\n\n"
       << fLower        << "\n";
 
+  out.close();
+
+  if( !out )
+    throw std::runtime_error( "Unable to write output file" );
 }
-- 
2.43.0


From 426e21213bfe95c623a300176150146b664df6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:14 +0000
Subject: [PATCH 066/117] fix: report step functions that cannot be read
 completely

A read error was treated like the end of the file, so that the confidence
sets were calculated from a part of the function.
---
 src/tools/persistence_indicator_function_confidence_sets.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/persistence_indicator_function_confidence_sets.cc b/src/tools/persistence_indicator_function_confidence_sets.cc
index ec5077a..1e47272 100644
--- a/src/tools/persistence_indicator_function_confidence_sets.cc
+++ b/src/tools/persistence_indicator_function_confidence_sets.cc
@@ -106,6 +106,9 @@ int main( int argc, char** argv )
 
       in >> PIF;
 
+      if( in.bad() )
+        throw std::runtime_error( "Unable to read input file" );
+
       persistenceIndicatorFunctions.emplace_back( PIF );
     }
     else
-- 
2.43.0


From c727f7a1a0f83d7e3e59461081588655132269d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:14 +0000
Subject: [PATCH 067/117] fix: report functions that cannot be read completely
 in piecewise_linear_function_smoothing

---
 src/tools/piecewise_linear_function_smoothing.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/piecewise_linear_function_smoothing.cc b/src/tools/piecewise_linear_function_smoothing.cc
index c6e5849..77f3c2f 100644
--- a/src/tools/piecewise_linear_function_smoothing.cc
+++ b/src/tools/piecewise_linear_function_smoothing.cc
@@ -47,6 +47,9 @@ Function load( const std::string& filename )
     data.push_back( std::make_pair(x,y) );
   }
 
+  if( in.bad() )
+    throw std::runtime_error( "Unable to read file" );
+
   return Function( data.begin(), data.end() );
 }
 
-- 
2.43.0


From 382edaf9c41dd0ca72727cb56f4a933bbfd2aada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:14 +0000
Subject: [PATCH 068/117] fix: report output errors in
 piecewise_linear_function_smoothing

---
 src/tools/piecewise_linear_function_smoothing.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/piecewise_linear_function_smoothing.cc b/src/tools/piecewise_linear_function_smoothing.cc
index 77f3c2f..37351d6 100644
--- a/src/tools/piecewise_linear_function_smoothing.cc
+++ b/src/tools/piecewise_linear_function_smoothing.cc
@@ -159,4 +159,10 @@ int main( int argc, char** argv )
   std::cout << empiricalMean << "\n\n"
             << fUpper        << "\n\n"
             << fLower        << "\n";
+
+  if( !std::cout.flush() )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
 }
-- 
2.43.0


From 67fec2d6742c00e84893a2ad191dbf9975bf58ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:02 +0000
Subject: [PATCH 069/117] fix: report lack of memory when reading step
 functions

Running out of memory while converting a line was treated like a line
without numbers, so that steps were skipped without any notice.
---
 include/aleph/math/StepFunction.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/aleph/math/StepFunction.hh b/include/aleph/math/StepFunction.hh
index 8d247cc..bdb6db3 100644
--- a/include/aleph/math/StepFunction.hh
+++ b/include/aleph/math/StepFunction.hh
@@ -537,6 +537,11 @@ template <class D, class I> std::istream& operator>>( std::istream& i, StepFunct
       if( !converter.fail() && ya == yb )
         f.add( a, b, ya );
     }
+
+    // Running out of memory is not a property of the line, so it must
+    // not be skipped.
+    if( converter.bad() )
+      i.setstate( std::ios_base::badbit );
   }
 
   return i;
-- 
2.43.0


From 435346eda28d37e491fdea928897e2e086a74b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:51 +0000
Subject: [PATCH 070/117] fix: report output errors in betti_numbers

---
 src/tools/betti_numbers.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/betti_numbers.cc b/src/tools/betti_numbers.cc
index 9136a2d..5fdbc70 100644
--- a/src/tools/betti_numbers.cc
+++ b/src/tools/betti_numbers.cc
@@ -101,4 +101,10 @@ int main( int argc, char** argv )
     std::cout << pair.first << "\t" << pair.second << "\n";
 
   std::cout << "\n\n";
+
+  if( !std::cout.flush() )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
 }
-- 
2.43.0


From 023b87702a022073a3c8be7b094ca64d9697fab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:51 +0000
Subject: [PATCH 071/117] fix: report output errors in relevant_edges

---
 src/tools/relevant_edges.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/relevant_edges.cc b/src/tools/relevant_edges.cc
index 44b127a..3c4b3b4 100644
--- a/src/tools/relevant_edges.cc
+++ b/src/tools/relevant_edges.cc
@@ -102,4 +102,10 @@ int main( int argc, char** argv )
   auto&& pd    = std::get<0>( tuple );
 
   std::cout << pd << "\n";
+
+  if( !std::cout.flush() )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
 }
-- 
2.43.0


From d53576d25179e28ab6d54bdf72643c2a703d4482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:51 +0000
Subject: [PATCH 072/117] fix: accept arbitrary node identifiers in
 relevant_edges

Labels are stored by position. Looking them up by a larger identifier
ended the tool with an exception.
---
 src/tools/relevant_edges.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/relevant_edges.cc b/src/tools/relevant_edges.cc
index 3c4b3b4..40c2e51 100644
--- a/src/tools/relevant_edges.cc
+++ b/src/tools/relevant_edges.cc
@@ -49,7 +49,7 @@ struct SizeFunctor
     _edgeRelevance[ e ]    = std::min( c_older, c_younger)  / std::max( c_older, c_younger );
     _edgeStrength [ e ]    = _componentSize[older];
 
-    if( _labels.empty() )
+    if( v >= _labels.size() )
     {
       std::cerr << "* Edge " << "(" << u << "," << v << "): "
                 << _edgeRelevance[e]
-- 
2.43.0


From 9a4e0cd63bee04919b9016a620400b16c9edf69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:51 +0000
Subject: [PATCH 073/117] fix: report output errors in
 connectivity_matrix_analysis

---
 src/tools/connectivity_matrix_analysis.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/connectivity_matrix_analysis.cc b/src/tools/connectivity_matrix_analysis.cc
index 23b1afd..b3b2234 100644
--- a/src/tools/connectivity_matrix_analysis.cc
+++ b/src/tools/connectivity_matrix_analysis.cc
@@ -179,4 +179,10 @@ int main( int argc, char** argv )
   std::cout << "\n"
             << "]\n"
             << "}\n";
+
+  if( !std::cout.flush() )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
 }
-- 
2.43.0


From 1a89de8a81ec4905e48efd58a9b005c268402cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:51 +0000
Subject: [PATCH 074/117] fix: separate diagrams in the output of
 connectivity_matrix_analysis

The output was no valid JSON document as soon as it contained more than
one diagram.
---
 src/tools/connectivity_matrix_analysis.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tools/connectivity_matrix_analysis.cc b/src/tools/connectivity_matrix_analysis.cc
index b3b2234..fa58e48 100644
--- a/src/tools/connectivity_matrix_analysis.cc
+++ b/src/tools/connectivity_matrix_analysis.cc
@@ -117,6 +117,8 @@ int main( int argc, char** argv )
   std::cout << "{\n"
             << "\"diagrams\": [\n";
 
+  bool first = true;
+
   for( auto&& filename : filenames )
   {
     if( verbose )
@@ -172,6 +174,11 @@ int main( int argc, char** argv )
 
       kvs["persistent_entropy"]  = std::to_string( aleph::persistentEntropy( diagram ) );
 
+      if( !first )
+        std::cout << ",\n";
+
+      first = false;
+
       aleph::io::writeJSON( std::cout, diagram, basename, kvs );
     }
   }
-- 
2.43.0


From 640917c6c250f3e3882303ceebdf9fdae5b82521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:51 +0000
Subject: [PATCH 075/117] fix: report output errors in graph_analysis

---
 src/tools/graph_analysis.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools/graph_analysis.cc b/src/tools/graph_analysis.cc
index 91705dd..426e808 100644
--- a/src/tools/graph_analysis.cc
+++ b/src/tools/graph_analysis.cc
@@ -185,6 +185,11 @@ int main( int argc, char** argv )
           out << point.x() << "\t" << point.y() << "\n";
       }
 
+      out.close();
+
+      if( !out )
+        throw std::runtime_error( "Unable to write output file" );
+
       std::cerr << "finished\n";
     }
   }
-- 
2.43.0


From 4a1ef4f215067663b3d007e6d8cf4a72a9064217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:51 +0000
Subject: [PATCH 076/117] fix: report input files that cannot be opened in
 function_analysis

---
 src/tools/function_analysis.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/function_analysis.cc b/src/tools/function_analysis.cc
index 5d77189..9ed0dac 100644
--- a/src/tools/function_analysis.cc
+++ b/src/tools/function_analysis.cc
@@ -229,6 +229,10 @@ int main( int argc, char** argv )
     if( filename != "-" and not filename.empty() )
     {
       fin.open( filename );
+
+      if( !fin )
+        throw std::runtime_error( "Unable to open input file" );
+
       in = &fin;
     }
 
-- 
2.43.0


From 4f12ec0900b76db094228d8885ef09ac1ce89c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:51 +0000
Subject: [PATCH 077/117] fix: report input files that cannot be read in
 function_analysis

---
 src/tools/function_analysis.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/function_analysis.cc b/src/tools/function_analysis.cc
index 9ed0dac..d96ae92 100644
--- a/src/tools/function_analysis.cc
+++ b/src/tools/function_analysis.cc
@@ -148,6 +148,9 @@ std::vector<SimplicialComplex> readData( std::istream& in, bool useSublevelSetFi
     }
   }
 
+  if( in.bad() )
+    throw std::runtime_error( "Unable to read input" );
+
   return complexes;
 }
 
-- 
2.43.0


From b6b91e9a5eabf3065fb5fb211d66f33436fbee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:16:51 +0000
Subject: [PATCH 078/117] fix: report output errors in function_analysis

---
 src/tools/function_analysis.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tools/function_analysis.cc b/src/tools/function_analysis.cc
index d96ae92..db87040 100644
--- a/src/tools/function_analysis.cc
+++ b/src/tools/function_analysis.cc
@@ -336,5 +336,13 @@ int main( int argc, char** argv )
       *out << D << "\n\n";
   }
 
+  out->flush();
+
+  if( fout.is_open() )
+    fout.close();
+
+  if( !*out )
+    throw std::runtime_error( "Unable to write output" );
+
   std::cerr << "finished\n";
 }
-- 
2.43.0


From a9a4e58bfe8ad512700ed0eddcd7b0091bec34a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:17:12 +0000
Subject: [PATCH 079/117] fix: report output errors in
 clique_persistence_diagram

---
 src/tools/clique_persistence_diagram.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tools/clique_persistence_diagram.cc b/src/tools/clique_persistence_diagram.cc
index 9bc894d..827a00e 100644
--- a/src/tools/clique_persistence_diagram.cc
+++ b/src/tools/clique_persistence_diagram.cc
@@ -22,6 +22,7 @@
 #include <iostream>
 #include <limits>
 #include <numeric>
+#include <stdexcept>
 #include <string>
 #include <sstream>
 #include <unordered_map>
@@ -522,6 +523,11 @@ int main( int argc, char** argv )
           out << itPoint->x() << "\t" << itPoint->y() << "\t" << ccif.getComponentSize( vertex ) << "\n";
         }
       }
+
+      out.close();
+
+      if( !out )
+        throw std::runtime_error( "Unable to write output file" );
     }
   }
 
@@ -543,5 +549,10 @@ int main( int argc, char** argv )
           << "\t" << ccif.numberOfCliqueCommunities( vertex )
           << ( labels.empty() ? "" : "\t" + formatLabel( labels.at( vertex ) ) ) << "\n";
     }
+
+    out.close();
+
+    if( !out )
+      throw std::runtime_error( "Unable to write output file" );
   }
 }
-- 
2.43.0


From 64af4975626f1b964f0bd4c4df4ed7421d79c7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:18:12 +0000
Subject: [PATCH 080/117] fix: use weights as the filtration in
 connectivity_matrix_analysis

The complex was sorted lexicographically before its persistent homology was
calculated, so that the diagrams did not depend on the order of the weights.
---
 src/tools/connectivity_matrix_analysis.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/connectivity_matrix_analysis.cc b/src/tools/connectivity_matrix_analysis.cc
index fa58e48..9135dc6 100644
--- a/src/tools/connectivity_matrix_analysis.cc
+++ b/src/tools/connectivity_matrix_analysis.cc
@@ -15,6 +15,8 @@
 
 #include <aleph/persistentHomology/Calculation.hh>
 
+#include <aleph/topology/filtrations/Data.hh>
+
 #include <aleph/topology/io/AdjacencyMatrix.hh>
 
 #include <aleph/topology/Simplex.hh>
@@ -134,7 +136,7 @@ int main( int argc, char** argv )
       }
     );
 
-    K.sort();
+    K.sort( aleph::topology::filtrations::Data<Simplex>() );
 
     bool dualize                    = true;
     bool includeAllUnpairedCreators = keepUnpaired;
-- 
2.43.0


From 2c879c7a4151ed17605b65c2f789c3af7c6a184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:01 +0000
Subject: [PATCH 081/117] fix: report output errors in
 clique_communities_to_json

---
 src/tools/clique_communities_to_json.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/clique_communities_to_json.cc b/src/tools/clique_communities_to_json.cc
index 5f3880c..041339d 100644
--- a/src/tools/clique_communities_to_json.cc
+++ b/src/tools/clique_communities_to_json.cc
@@ -334,4 +334,10 @@ int main( int argc, char** argv )
 
   std::cout << "  }\n"
             << "}\n";
+
+  if( !std::cout.flush() )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
 }
-- 
2.43.0


From 693ba4e7348833a874ced1b1f9697a66608c1601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:01 +0000
Subject: [PATCH 082/117] fix: report output errors in
 point_cloud_data_descriptors

---
 src/tools/point_cloud_data_descriptors.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/point_cloud_data_descriptors.cc b/src/tools/point_cloud_data_descriptors.cc
index 73116dc..f7f9660 100644
--- a/src/tools/point_cloud_data_descriptors.cc
+++ b/src/tools/point_cloud_data_descriptors.cc
@@ -289,4 +289,10 @@ int main( int argc, char** argv )
   std::cout << "\n"
             << "  ]\n"
             << "}\n";
+
+  if( !std::cout.flush() )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
 }
-- 
2.43.0


From 963a1e102277daf88d33dce5b5ae5955209a4173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:01 +0000
Subject: [PATCH 083/117] fix: report output errors in rips_distributions

---
 src/tools/rips_distributions.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/rips_distributions.cc b/src/tools/rips_distributions.cc
index 7f59f7f..db7cf0a 100644
--- a/src/tools/rips_distributions.cc
+++ b/src/tools/rips_distributions.cc
@@ -189,4 +189,10 @@ int main( int argc, char** argv )
   }
 
   std::cout << "}\n";
+
+  if( !std::cout.flush() )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
 }
-- 
2.43.0


From 2ea75c8abc9ad0aba15d65fa0828b08bfb2d59d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:01 +0000
Subject: [PATCH 084/117] fix: use the expanded complexes in
 sparse_adjacency_matrices

The result of the expansion was discarded, so that the dimension given by
the user had no effect.
---
 src/tools/sparse_adjacency_matrices.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sparse_adjacency_matrices.cc b/src/tools/sparse_adjacency_matrices.cc
index 80f5ca4..ffb9b9c 100644
--- a/src/tools/sparse_adjacency_matrices.cc
+++ b/src/tools/sparse_adjacency_matrices.cc
@@ -241,7 +241,7 @@ int main( int argc, char** argv )
     std::cerr << "* Expanding simplicial complexes to dimension " << dimension << "...";
 
     for( auto&& K : simplicialComplexes )
-      expander( K, dimension );
+      K = expander( K, dimension );
 
     std::cerr << "finished\n";
   }
-- 
2.43.0


From 972476f9cfed95fdfbec85404462551a70b0d5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:01 +0000
Subject: [PATCH 085/117] fix: use descending weights for superlevel sets in
 sparse_adjacency_matrices

Sorting by ascending weights put simplices in front of their faces, so that
the calculated diagrams were meaningless.
---
 src/tools/sparse_adjacency_matrices.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sparse_adjacency_matrices.cc b/src/tools/sparse_adjacency_matrices.cc
index ffb9b9c..aea2ae2 100644
--- a/src/tools/sparse_adjacency_matrices.cc
+++ b/src/tools/sparse_adjacency_matrices.cc
@@ -315,7 +315,7 @@ int main( int argc, char** argv )
       if( useSuperlevelSets )
       {
         K.sort(
-           aleph::topology::filtrations::Data< Simplex, std::less<DataType> >()
+           aleph::topology::filtrations::Data< Simplex, std::greater<DataType> >()
          );
       }
       else
-- 
2.43.0


From f90359bcea4e5568706c8a4f8d56773a6ca971a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:01 +0000
Subject: [PATCH 086/117] fix: report output errors in
 sparse_adjacency_matrices

---
 src/tools/sparse_adjacency_matrices.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/tools/sparse_adjacency_matrices.cc b/src/tools/sparse_adjacency_matrices.cc
index aea2ae2..8029285 100644
--- a/src/tools/sparse_adjacency_matrices.cc
+++ b/src/tools/sparse_adjacency_matrices.cc
@@ -228,6 +228,11 @@ int main( int argc, char** argv )
       for( auto&& value : cc )
         out << value << "\n";
 
+      out.close();
+
+      if( !out )
+        throw std::runtime_error( "Unable to write output file" );
+
       ++index;
     }
   }
@@ -397,6 +402,11 @@ int main( int argc, char** argv )
           else
             out << point.x() << "\t" << point.y() << "\n";
         }
+
+        out.close();
+
+        if( !out )
+          throw std::runtime_error( "Unable to write output file" );
       }
 
       ++index;
@@ -417,5 +427,10 @@ int main( int argc, char** argv )
     std::ofstream out( outputPath );
     for( auto&& label : labels )
       out << label << "\n";
+
+    out.close();
+
+    if( !out )
+      throw std::runtime_error( "Unable to write output file" );
   }
 }
-- 
2.43.0


From 27381f9077d0eec8fcf7df8206b9dc7245022e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:14 +0000
Subject: [PATCH 087/117] fix: report the degrees of isolated vertices

---
 include/aleph/topology/filtrations/Degree.hh | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/aleph/topology/filtrations/Degree.hh b/include/aleph/topology/filtrations/Degree.hh
index 13c9be6..d79b9ff 100644
--- a/include/aleph/topology/filtrations/Degree.hh
+++ b/include/aleph/topology/filtrations/Degree.hh
@@ -41,11 +41,10 @@ template <class SimplicialComplex, class OutputIterator> void degrees( const Sim
 
   for( auto&& simplex : K )
   {
-    if( simplex.dimension() != 0 )
-    {
-      for( auto&& vertex : simplex )
-        degrees[vertex] += 1;
-    }
+    // A vertex does not increase its own degree, but it is required to
+    // have one, even if it is not part of any other simplex.
+    for( auto&& vertex : simplex )
+      degrees[vertex] += simplex.dimension() != 0 ? 1 : 0;
   }
 
   for( auto&& pair : degrees )
-- 
2.43.0


From d336a3d8c9f8b3309634cb16efba0a577e8473fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:08:43 +0000
Subject: [PATCH 088/117] fix: permit empty strata in intersection homology

The consistency check of the stratification asked whether the complex was
empty instead of asking whether the stratum was. An empty stratum has no
dimension, so that the calculation ended with an exception.
---
 include/aleph/persistentHomology/PhiPersistence.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/persistentHomology/PhiPersistence.hh b/include/aleph/persistentHomology/PhiPersistence.hh
index 4741198..6e84cb9 100644
--- a/include/aleph/persistentHomology/PhiPersistence.hh
+++ b/include/aleph/persistentHomology/PhiPersistence.hh
@@ -271,7 +271,7 @@ auto calculateIntersectionHomology( const aleph::topology::SimplicialComplex<Sim
 
     for( auto&& x : X )
     {
-      if( !K.empty() )
+      if( !x.empty() )
       {
         minDimension = std::min( minDimension, x.dimension() );
         maxDimension = std::max( maxDimension, x.dimension() );
-- 
2.43.0


From 13812f1742c9494a6d5f599d775cde8e49256303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:28 +0000
Subject: [PATCH 089/117] fix: read adjacency matrices with more entries than
 vertex identifiers

---
 include/aleph/topology/io/AdjacencyMatrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/AdjacencyMatrix.hh b/include/aleph/topology/io/AdjacencyMatrix.hh
index d65897d..bc83390 100644
--- a/include/aleph/topology/io/AdjacencyMatrix.hh
+++ b/include/aleph/topology/io/AdjacencyMatrix.hh
@@ -205,7 +205,7 @@ public:
       // not be considered here.
       for( std::size_t x = y + 1; x < _dimension; x++ )
       {
-        auto i = static_cast<VertexType>( _dimension * y + x   );
+        auto i = _dimension * y + x;
         auto w = values[i];
 
         // Map matrix indices to the corresponding vertex indices as
-- 
2.43.0


From 21ce18b3eb1493496a3f7bd95929616546988f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:28 +0000
Subject: [PATCH 090/117] fix: read bipartite adjacency matrices with more
 entries than vertex identifiers

---
 include/aleph/topology/io/BipartiteAdjacencyMatrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
index cb7e87d..01133f6 100644
--- a/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
+++ b/include/aleph/topology/io/BipartiteAdjacencyMatrix.hh
@@ -168,7 +168,7 @@ public:
     {
       for( std::size_t x = 0; x < _width; x++ )
       {
-        auto i = static_cast<VertexType>( _width * y + x   );
+        auto i = _width * y + x;
         auto w = values[i];
 
         // Map matrix indices to the corresponding vertex indices as
-- 
2.43.0


From c83520d49886e208226a3739c8bcd6c3a3fb9e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:11 +0000
Subject: [PATCH 091/117] fix: let a spectrum reader report that its maps
 cannot be copied

---
 include/aleph/topology/io/FlexSpectrum.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/aleph/topology/io/FlexSpectrum.hh b/include/aleph/topology/io/FlexSpectrum.hh
index d7f587d..fa48f76 100644
--- a/include/aleph/topology/io/FlexSpectrum.hh
+++ b/include/aleph/topology/io/FlexSpectrum.hh
@@ -133,12 +133,12 @@ public:
     _normalize = value;
   }
 
-  std::map<std::size_t, double> getIndexToValueMap() const noexcept
+  std::map<std::size_t, double> getIndexToValueMap() const
   {
     return _index_to_value;
   }
 
-  std::map<std::size_t, double> getIndexToIntensityMap() const noexcept
+  std::map<std::size_t, double> getIndexToIntensityMap() const
   {
     return _index_to_intensity;
   }
-- 
2.43.0


From 366d07a0923922e7c9deaf970b2c7ed49c81f799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:11 +0000
Subject: [PATCH 092/117] fix: accept an argument of the short spine option

---
 src/tools/persistent_spines.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/persistent_spines.cc b/src/tools/persistent_spines.cc
index ad25323..4c126ab 100644
--- a/src/tools/persistent_spines.cc
+++ b/src/tools/persistent_spines.cc
@@ -48,7 +48,7 @@ int main( int argc, char** argv )
     };
 
     int option = 0;
-    while( ( option = getopt_long( argc, argv, "r:st", commandLineOptions, nullptr ) ) != -1 )
+    while( ( option = getopt_long( argc, argv, "r:s:t", commandLineOptions, nullptr ) ) != -1 )
     {
       switch( option )
       {
-- 
2.43.0


From 00eaa02ae0a2dd9e77e61b36009c1e61b44ae5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:11 +0000
Subject: [PATCH 093/117] fix: process fewer than five image patches

---
 src/tools/process_image_patches.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/process_image_patches.cc b/src/tools/process_image_patches.cc
index 7f99eb1..e15c8d7 100644
--- a/src/tools/process_image_patches.cc
+++ b/src/tools/process_image_patches.cc
@@ -145,7 +145,8 @@ int main( int argc, char** argv )
     std::sort( contrastNorms_.begin(),
                contrastNorms_.end() );
 
-    auto threshold = contrastNorms_.at( std::size_t( std::ceil( (1.0 - contrastNormThreshold) * double( contrastNorms.size() ) ) ) );
+    auto index     = std::size_t( std::ceil( (1.0 - contrastNormThreshold) * double( contrastNorms.size() ) ) );
+    auto threshold = contrastNorms_.at( std::min( index, contrastNorms_.size() - 1 ) );
 
     auto numRemainingPatches
       = std::count_if( contrastNorms.begin(), contrastNorms.end(),
-- 
2.43.0


From 815f78e29f0bc0008142ea4b053544bf83393603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:11 +0000
Subject: [PATCH 094/117] fix: normalize the remaining image patches only

---
 src/tools/process_image_patches.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/process_image_patches.cc b/src/tools/process_image_patches.cc
index e15c8d7..7d4941c 100644
--- a/src/tools/process_image_patches.cc
+++ b/src/tools/process_image_patches.cc
@@ -182,7 +182,7 @@ int main( int argc, char** argv )
 
   std::cerr << "* Final processing and normalization...";
 
-  for( IndexType i = 0; i < pointCloud.size(); i++ )
+  for( IndexType i = 0; i < processedPointCloud.size(); i++ )
   {
     auto p     = processedPointCloud[i];
     auto mean  = aleph::math::accumulate_kahan_sorted( p.begin(), p.end(), DataType() );
-- 
2.43.0


From c87d93f71a8f3ce2142f03ff5175dba2a718c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:11 +0000
Subject: [PATCH 095/117] fix: calculate norms of image patches without
 truncation

---
 src/tools/process_image_patches.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/process_image_patches.cc b/src/tools/process_image_patches.cc
index 7d4941c..9d16027 100644
--- a/src/tools/process_image_patches.cc
+++ b/src/tools/process_image_patches.cc
@@ -194,7 +194,7 @@ int main( int argc, char** argv )
                       return x - mean;
                     } );
 
-    auto norm = std::sqrt( std::inner_product( p.begin(), p.end(), p.begin(), 0 ) );
+    auto norm = std::sqrt( std::inner_product( p.begin(), p.end(), p.begin(), DataType() ) );
 
     std::transform( p.begin(), p.end(), p.begin(),
                     [&norm] ( DataType x )
-- 
2.43.0


From 4faa76b5aeceb2908774ffc9d9e9129af5e33a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:11 +0000
Subject: [PATCH 096/117] fix: use descending weights in the descending
 filtration

---
 src/tools/ephemeral.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/ephemeral.cc b/src/tools/ephemeral.cc
index 8f53fac..4352191 100644
--- a/src/tools/ephemeral.cc
+++ b/src/tools/ephemeral.cc
@@ -158,7 +158,7 @@ std::vector<PersistenceDiagram> processFilename( const std::string& filename,
   if( reverse )
   {
     K.sort(
-       aleph::topology::filtrations::Data< Simplex, std::less<DataType> >()
+       aleph::topology::filtrations::Data< Simplex, std::greater<DataType> >()
      );
   }
   else
-- 
2.43.0


From 2c3c369465565961af57ff1ca01c4d91853f302f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:11 +0000
Subject: [PATCH 097/117] fix: assign minimum weights in the descending
 filtration

---
 src/tools/ephemeral.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/tools/ephemeral.cc b/src/tools/ephemeral.cc
index 4352191..4664a9e 100644
--- a/src/tools/ephemeral.cc
+++ b/src/tools/ephemeral.cc
@@ -142,14 +142,19 @@ std::vector<PersistenceDiagram> processFilename( const std::string& filename,
 
   // If desired, perform a simple Vietoris--Rips expansion of the given
   // simplicial complex. This tacitly assumes that edges are *weighted*
-  // and propagates the maximum edge weight to higher-dimensional faces
+  // and propagates the maximum edge weight (minimum, if the filtration is
+  // reversed) to higher-dimensional faces
   // of the complex.
   if( dimension != 0 )
   {
     RipsExpander expander;
 
     K = expander( K, dimension );
-    K = expander.assignMaximumWeight( K );
+
+    if( reverse )
+      K.recalculateWeights( false, true );
+    else
+      K = expander.assignMaximumWeight( K );
   }
 
   // Setting both of them would be invalid
-- 
2.43.0


From 4ad65147aaa350f6cf4e21c2bf5474ad8f85d3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:11 +0000
Subject: [PATCH 098/117] fix: heed the verbosity option

---
 src/tools/ephemeral.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/ephemeral.cc b/src/tools/ephemeral.cc
index 4664a9e..edfca10 100644
--- a/src/tools/ephemeral.cc
+++ b/src/tools/ephemeral.cc
@@ -255,6 +255,9 @@ int main( int argc, char** argv )
       case 'k':
         keepUnpaired = true;
         break;
+      case 'v':
+        verbose = true;
+        break;
       case 'D':
         distance = true;
         break;
-- 
2.43.0


From dafbe2e138830ac7067bcfc6824c47251ae5a81f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:11 +0000
Subject: [PATCH 099/117] fix: report output errors of connectivity matrix
 diagrams

---
 src/tools/ephemeral.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/ephemeral.cc b/src/tools/ephemeral.cc
index edfca10..7c9d5ae 100644
--- a/src/tools/ephemeral.cc
+++ b/src/tools/ephemeral.cc
@@ -409,6 +409,9 @@ int main( int argc, char** argv )
 
       std::ofstream out( output );
       out << D;
+
+      if( !out.flush() )
+        throw std::runtime_error( "Unable to write output" );
     }
   }
 }
-- 
2.43.0


From 0112e4cf8510e29a1453c92e0ad37be23b568fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:11 +0000
Subject: [PATCH 100/117] fix: report output errors of glyphs

---
 src/tools/persistence_indicator_function_glyph.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/tools/persistence_indicator_function_glyph.cc b/src/tools/persistence_indicator_function_glyph.cc
index 8cca555..5fa117d 100644
--- a/src/tools/persistence_indicator_function_glyph.cc
+++ b/src/tools/persistence_indicator_function_glyph.cc
@@ -273,4 +273,13 @@ int main( int argc, char** argv )
     print( linout, hist, i );
     print( logout, hist, i );
   }
+
+  linout.close();
+  logout.close();
+
+  if( !linout || !logout )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
 }
-- 
2.43.0


From f76d403be46653b49e9078c266c3085d369c9e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:11 +0000
Subject: [PATCH 101/117] fix: report output errors of hierarchies

---
 src/tools/interlevel_set_persistence_hierarchy.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tools/interlevel_set_persistence_hierarchy.cc b/src/tools/interlevel_set_persistence_hierarchy.cc
index e413634..45f66e7 100644
--- a/src/tools/interlevel_set_persistence_hierarchy.cc
+++ b/src/tools/interlevel_set_persistence_hierarchy.cc
@@ -294,5 +294,13 @@ int main( int argc, char** argv )
         out << "\n";
       }
     }
+
+    out.close();
+
+    if( !out || !std::cout.flush() )
+    {
+      std::cerr << "* Unable to write output\n";
+      return -1;
+    }
   }
 }
-- 
2.43.0


From 5c264bad658954fc88d7a12df5944f1ff2c9b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:11 +0000
Subject: [PATCH 102/117] fix: report output errors of dimensionality estimates

---
 src/tools/local_dimensionality.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/local_dimensionality.cc b/src/tools/local_dimensionality.cc
index c454d5b..cf572c4 100644
--- a/src/tools/local_dimensionality.cc
+++ b/src/tools/local_dimensionality.cc
@@ -167,4 +167,10 @@ int main( int argc, char** argv )
 
   for( auto&& d : dimensionalities )
     std::cout << d << "\n";
+
+  if( !std::cout.flush() )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
 }
-- 
2.43.0


From 3ff38f6c40fbb50c04b20249632b2a826fc28f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:11 +0000
Subject: [PATCH 103/117] fix: report output errors of spines

---
 src/tools/persistent_spines.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/persistent_spines.cc b/src/tools/persistent_spines.cc
index 4c126ab..627c829 100644
--- a/src/tools/persistent_spines.cc
+++ b/src/tools/persistent_spines.cc
@@ -157,4 +157,10 @@ int main( int argc, char** argv )
               << "\n"
               << spine << "\n";
   }
+
+  if( !std::cout.flush() )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
 }
-- 
2.43.0


From b9be4444a835a4b4e8dd1fe5819310218cb50884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:11 +0000
Subject: [PATCH 104/117] fix: report output errors of image patches

---
 src/tools/process_image_patches.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/process_image_patches.cc b/src/tools/process_image_patches.cc
index 9d16027..de656f0 100644
--- a/src/tools/process_image_patches.cc
+++ b/src/tools/process_image_patches.cc
@@ -211,4 +211,10 @@ int main( int argc, char** argv )
 
   std::cerr << "* Processed point cloud has " << processedPointCloud.size() << " points\n";
   std::cout << processedPointCloud << "\n";
+
+  if( !std::cout.flush() )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
 }
-- 
2.43.0


From 570e9d346d6e8e115e1ff24540aa59397b7b3491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:11 +0000
Subject: [PATCH 105/117] fix: report output errors of spectra

---
 src/tools/spectral_analysis.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/spectral_analysis.cc b/src/tools/spectral_analysis.cc
index 6588118..1774869 100644
--- a/src/tools/spectral_analysis.cc
+++ b/src/tools/spectral_analysis.cc
@@ -185,4 +185,10 @@ int main( int argc, char** argv )
       std::cout << std::setprecision(11) << x << "\t" << y << "\n";
     }
   }
+
+  if( !std::cout.flush() )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
 }
-- 
2.43.0


From 9be3b11b489363e74e0aee108cb2d2e80c185a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:18:11 +0000
Subject: [PATCH 106/117] fix: report output errors of triangulations

---
 src/tools/wicked_triangulations.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tools/wicked_triangulations.cc b/src/tools/wicked_triangulations.cc
index ece34cf..9fce314 100644
--- a/src/tools/wicked_triangulations.cc
+++ b/src/tools/wicked_triangulations.cc
@@ -345,4 +345,10 @@ int main(int argc, char* argv[])
 
   std::cout << level << "}\n"
             << "}\n";
+
+  if( !std::cout.flush() )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
 }
-- 
2.43.0


From ad7987286c1334dc57711b3e46cfd8fc90c88804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:19:19 +0000
Subject: [PATCH 107/117] fix: expand connectivity matrices with negative
 weights

---
 src/tools/ephemeral.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/tools/ephemeral.cc b/src/tools/ephemeral.cc
index 7c9d5ae..8f01690 100644
--- a/src/tools/ephemeral.cc
+++ b/src/tools/ephemeral.cc
@@ -150,11 +150,7 @@ std::vector<PersistenceDiagram> processFilename( const std::string& filename,
     RipsExpander expander;
 
     K = expander( K, dimension );
-
-    if( reverse )
-      K.recalculateWeights( false, true );
-    else
-      K = expander.assignMaximumWeight( K );
+    K.recalculateWeights( !reverse, true );
   }
 
   // Setting both of them would be invalid
-- 
2.43.0


From 03df4b656c3dcf479098a34e05e29aec61f1d250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:19:19 +0000
Subject: [PATCH 108/117] fix: report errors upon closing connectivity matrix
 diagrams

---
 src/tools/ephemeral.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/ephemeral.cc b/src/tools/ephemeral.cc
index 8f01690..644bcbc 100644
--- a/src/tools/ephemeral.cc
+++ b/src/tools/ephemeral.cc
@@ -406,7 +406,9 @@ int main( int argc, char** argv )
       std::ofstream out( output );
       out << D;
 
-      if( !out.flush() )
+      out.close();
+
+      if( !out )
         throw std::runtime_error( "Unable to write output" );
     }
   }
-- 
2.43.0


From 2b1041a395f5b4257837b71bc58a484c6c54b71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:36:13 +0000
Subject: [PATCH 109/117] fix: calculate diagrams of functions with unpaired
 values

---
 include/aleph/persistenceDiagrams/Calculation.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/aleph/persistenceDiagrams/Calculation.hh b/include/aleph/persistenceDiagrams/Calculation.hh
index 0c58a8c..88a760b 100644
--- a/include/aleph/persistenceDiagrams/Calculation.hh
+++ b/include/aleph/persistenceDiagrams/Calculation.hh
@@ -93,7 +93,10 @@ PersistenceDiagram<DataType> makePersistenceDiagram( const PersistencePairing<In
     auto&& i = pair.first;
     auto&& j = pair.second;
 
-    D.add( functionValues.at(i), functionValues.at(j) );
+    if( j < functionValues.size() )
+      D.add( functionValues.at(i), functionValues.at(j) );
+    else
+      D.add( functionValues.at(i) );
   }
 
   return D;
-- 
2.43.0


From d9828f00e639e1fadd088f56b8661bf26294326f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:25 +0000
Subject: [PATCH 110/117] fix: store diagrams of intersection homology by
 dimension

---
 src/tools/persistent_intersection_homology.cc | 63 +++++++++----------
 1 file changed, 30 insertions(+), 33 deletions(-)

diff --git a/src/tools/persistent_intersection_homology.cc b/src/tools/persistent_intersection_homology.cc
index db260af..eeb2730 100644
--- a/src/tools/persistent_intersection_homology.cc
+++ b/src/tools/persistent_intersection_homology.cc
@@ -36,6 +36,8 @@
 #include <iostream>
 #include <numeric>
 #include <set>
+#include <stdexcept>
+#include <string>
 #include <vector>
 
 #include <getopt.h>
@@ -87,6 +89,28 @@ std::vector<DataType> standardizeValues( const std::vector<DataType>& data )
   return result;
 }
 
+// Stores the persistence diagram of the given dimension in a file. The
+// file is empty if there is no such diagram.
+void store( std::vector<PersistenceDiagram>& diagrams, std::size_t dimension, const std::string& filename )
+{
+  std::ofstream out( filename );
+
+  for( auto&& D : diagrams )
+  {
+    if( D.dimension() == dimension )
+    {
+      D.removeDiagonal();
+      out << D;
+    }
+  }
+
+  out << "\n";
+  out.close();
+
+  if( !out )
+    throw std::runtime_error( "Unable to write output file" );
+}
+
 int main( int argc, char** argv )
 {
   DataType filterThreshold = DataType();
@@ -295,40 +319,13 @@ int main( int argc, char** argv )
 
   std::cerr << "finished\n";
 
+  // The diagrams of some dimensions may be missing, so the dimension has
+  // to be used for storing them instead of the index.
+  for( std::size_t d = 0; d < 3; d++ )
   {
-    std::ofstream out0( "/tmp/D_0_PH.txt" );
-    std::ofstream out1( "/tmp/D_0_IH.txt" );
-
-    D1.front().removeDiagonal();
-    D2.front().removeDiagonal();
-
-    out0 << D1.front() << "\n";
-    out1 << D2.front() << "\n";
-  }
-
-  if( D1.size() >= 2 && D2.size() >= 2 )
-  {
-    std::ofstream out0( "/tmp/D_1_PH.txt" );
-    std::ofstream out1( "/tmp/D_1_IH.txt" );
-
-    D1[1].removeDiagonal();
-    D2[1].removeDiagonal();
-
-    out0 << D1[1] << "\n";
-    out1 << D2[1] << "\n";
-  }
-
-  std::cerr << D1.size() << "," << D2.size() << "\n";
-
-  if( D1.size() >= 3 && D2.size() >= 3 )
-  {
-    std::ofstream out0( "/tmp/D_2_PH.txt" );
-    std::ofstream out1( "/tmp/D_2_IH.txt" );
-
-    D1[2].removeDiagonal();
-    D2[2].removeDiagonal();
+    auto suffix = std::to_string( d );
 
-    out0 << D1[2] << "\n";
-    out1 << D2[2] << "\n";
+    store( D1, d, "/tmp/D_" + suffix + "_PH.txt" );
+    store( D2, d, "/tmp/D_" + suffix + "_IH.txt" );
   }
 }
-- 
2.43.0


From 03f6183530b77053239bb975ca8121621bb34799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:46:25 +0000
Subject: [PATCH 111/117] fix: report output errors in graph and skeleton
 analysis

---
 src/tools/multi_scale_skeleton.cc      | 14 ++++++++++++++
 src/tools/stratified_graph_analysis.cc |  6 ++++++
 2 files changed, 20 insertions(+)

diff --git a/src/tools/multi_scale_skeleton.cc b/src/tools/multi_scale_skeleton.cc
index 9ef046a..61e3890 100644
--- a/src/tools/multi_scale_skeleton.cc
+++ b/src/tools/multi_scale_skeleton.cc
@@ -122,6 +122,12 @@ int main( int argc, char** argv )
     std::cout << "\n\n";
   }
 
+  if( !std::cout.flush() )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
+
   // gnuplot output ---------------------------------------------------
 
   {
@@ -140,5 +146,13 @@ int main( int argc, char** argv )
 
       out << "\n\n";
     }
+
+    out.close();
+
+    if( !out )
+    {
+      std::cerr << "* Unable to write output file\n";
+      return -1;
+    }
   }
 }
diff --git a/src/tools/stratified_graph_analysis.cc b/src/tools/stratified_graph_analysis.cc
index d733587..1d67813 100644
--- a/src/tools/stratified_graph_analysis.cc
+++ b/src/tools/stratified_graph_analysis.cc
@@ -732,4 +732,10 @@ int main( int argc, char** argv )
     else
       std::cout << i << "\t" << aleph::pNorm( D ) << "\n";
   }
+
+  if( !std::cout.flush() )
+  {
+    std::cerr << "* Unable to write output\n";
+    return -1;
+  }
 }
-- 
2.43.0


From eeea6f2d06ea9a43e5fae26ccb65cc3055fa35a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:17:31 +0000
Subject: [PATCH 112/117] fix: keep the points of a cover tree when an
 insertion runs out of memory

---
 include/aleph/geometry/CoverTree.hh | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/include/aleph/geometry/CoverTree.hh b/include/aleph/geometry/CoverTree.hh
index 9c82af9..6ddcce0 100644
--- a/include/aleph/geometry/CoverTree.hh
+++ b/include/aleph/geometry/CoverTree.hh
@@ -152,6 +152,14 @@ public:
           // The previous tree does not contain the leaf node any more,
           // and it can be added as the new root node.
 
+          // Everything that requires memory is done before the subtree is
+          // changed.
+          auto oldRoot
+            = std::unique_ptr<Node>( new Node( this->_point, this->_level ) );
+
+          std::vector< std::unique_ptr<Node> > children;
+          children.reserve( 1 );
+
           std::unique_ptr<Node> leaf_ptr( nullptr );
 
           parent->_children.erase(
@@ -176,23 +184,19 @@ public:
           // Notice that this does increase the level of the current
           // root. This has to be adjusted for.
 
-          auto oldRoot
-            = std::unique_ptr<Node>( new Node( this->_point, this->_level ) );
+          oldRoot->_children.swap( _children );
 
-          for( auto&& child : _children )
-            oldRoot->_children.push_back( std::move( child ) );
-
-          _point = leaf->_point;
+          _point = std::move( leaf->_point );
           _level = _level + 1;
 
-          _children.clear();
+          _children.swap( children );
           _children.push_back( std::move( oldRoot ) );
 
           // Since the root of the tree changed, we also have to update
           // the distance calculation.
           d = Metric()( _point, p );
 
-          std::cerr << __FUNCTION__ << ": " << leaf->_point << " is the new root\n";
+          std::cerr << __FUNCTION__ << ": " << _point << " is the new root\n";
         }
 
         // Make current point the new root -----------------------------
@@ -204,13 +208,15 @@ public:
         auto oldRoot
           = std::unique_ptr<Node>( new Node( this->_point, this->_level ) );
 
-        for( auto&& child : _children )
-          oldRoot->_children.push_back( std::move( child ) );
+        std::vector< std::unique_ptr<Node> > children;
+        children.reserve( 1 );
 
         _point = p;
         _level = _level + 1;
 
-        _children.clear();
+        oldRoot->_children.swap( _children );
+
+        _children.swap( children );
         _children.push_back( std::move( oldRoot ) );
 
         return;
-- 
2.43.0


From 3f7e55fac6e005c49108a9270436a8ef5930a2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:17:31 +0000
Subject: [PATCH 113/117] fix: let queries of cover trees report that memory
 ran out

---
 include/aleph/geometry/CoverTree.hh | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/aleph/geometry/CoverTree.hh b/include/aleph/geometry/CoverTree.hh
index 6ddcce0..d75cfed 100644
--- a/include/aleph/geometry/CoverTree.hh
+++ b/include/aleph/geometry/CoverTree.hh
@@ -335,7 +335,7 @@ public:
     be relied on.
   */
 
-  std::multimap<long, Point> getNodesByLevel() const noexcept
+  std::multimap<long, Point> getNodesByLevel() const
   {
     std::multimap<long, Point> levelMap;
 
@@ -371,7 +371,7 @@ public:
     to be consolidated somehow.
   */
 
-  std::map<Point, long> nodesToLevel() const noexcept
+  std::map<Point, long> nodesToLevel() const
   {
     std::map<Point, long> levelMap;
 
@@ -399,7 +399,7 @@ public:
   }
 
   /** Gets all points in BFS order */
-  std::vector<Point> points() const noexcept
+  std::vector<Point> points() const
   {
     std::vector<Point> result;
 
@@ -452,7 +452,7 @@ public:
     is the level \f$l'-1$, where \f$l'$ is the level of \f$p$.
   */
 
-  bool checkLevelInvariant() const noexcept
+  bool checkLevelInvariant() const
   {
     std::queue<const Node*> nodes;
     nodes.push( _root.get() );
@@ -490,7 +490,7 @@ public:
     node is bounded by the covering distance.
   */
 
-  bool checkCoveringInvariant() const noexcept
+  bool checkCoveringInvariant() const
   {
     std::queue<const Node*> nodes;
     nodes.push( _root.get() );
@@ -532,7 +532,7 @@ public:
     is larger than the separating distance.
   */
 
-  bool checkSeparatingInvariant() const noexcept
+  bool checkSeparatingInvariant() const
   {
     std::queue<const Node*> nodes;
     nodes.push( _root.get() );
@@ -586,7 +586,7 @@ public:
     and the separating invariant.
   */
 
-  bool isValid() const noexcept
+  bool isValid() const
   {
     return    this->checkLevelInvariant()
            && this->checkCoveringInvariant()
@@ -602,7 +602,7 @@ public:
     of the tree.
   */
 
-  bool isHarmonic( const Point& p ) /* FIXME const */ noexcept
+  bool isHarmonic( const Point& p ) /* FIXME const */
   {
     std::vector<double> distances;
     std::vector<double> ancestorDistances;
@@ -701,7 +701,7 @@ public:
     return harmonic;
   }
 
-  bool checkDistance( const Point& p ) const noexcept
+  bool checkDistance( const Point& p ) const
   {
     std::vector<double> edgeDistances;
     std::vector<double> rootDistances;
-- 
2.43.0


From 9b9e3536d9eee519980dbafbade025bbd8aa7f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:17:31 +0000
Subject: [PATCH 114/117] fix: query empty cover trees

---
 include/aleph/geometry/CoverTree.hh | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/aleph/geometry/CoverTree.hh b/include/aleph/geometry/CoverTree.hh
index d75cfed..accccfa 100644
--- a/include/aleph/geometry/CoverTree.hh
+++ b/include/aleph/geometry/CoverTree.hh
@@ -298,7 +298,8 @@ public:
   void print( std::ostream& o )
   {
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
@@ -340,7 +341,8 @@ public:
     std::multimap<long, Point> levelMap;
 
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
@@ -376,7 +378,8 @@ public:
     std::map<Point, long> levelMap;
 
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
@@ -404,7 +407,8 @@ public:
     std::vector<Point> result;
 
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
@@ -455,11 +459,12 @@ public:
   bool checkLevelInvariant() const
   {
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+    if( _root )
+      nodes.push( _root.get() );
 
     // Initialize the level artificially in order to simplify the code
     // below.
-    long level = _root->_level + 1;
+    long level = this->level() + 1;
 
     while( !nodes.empty() )
     {
@@ -493,7 +498,8 @@ public:
   bool checkCoveringInvariant() const
   {
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
@@ -535,7 +541,8 @@ public:
   bool checkSeparatingInvariant() const
   {
     std::queue<const Node*> nodes;
-    nodes.push( _root.get() );
+    if( _root )
+      nodes.push( _root.get() );
 
     while( !nodes.empty() )
     {
-- 
2.43.0


From 06dbf57cc7ac9b0082f987da2fd21973f3b9333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:23:56 +0000
Subject: [PATCH 115/117] fix: do not add missing paths of types without
 infinity

---
 include/aleph/topology/FloydWarshall.hh | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/aleph/topology/FloydWarshall.hh b/include/aleph/topology/FloydWarshall.hh
index cbb9107..f20ad49 100644
--- a/include/aleph/topology/FloydWarshall.hh
+++ b/include/aleph/topology/FloydWarshall.hh
@@ -61,11 +61,14 @@ template <class SimplicialComplex> auto floydWarshall( const SimplicialComplex&
 
   Matrix M( static_cast<VertexType>( n ) );
 
+  auto infinity
+    = std::numeric_limits<DataType>::has_infinity ? std::numeric_limits<DataType>::infinity() : std::numeric_limits<DataType>::max();
+
   for( VertexType i = VertexType(0); i < VertexType(n); i++ )
   {
     M(i,i) = DataType(0);
     for( auto j = i+1; j < VertexType(n); j++ )
-      M(i,j) = std::numeric_limits<DataType>::has_infinity ? std::numeric_limits<DataType>::infinity() : std::numeric_limits<DataType>::max();
+      M(i,j) = infinity;
   }
 
   for( auto&& s : K )
@@ -87,6 +90,10 @@ template <class SimplicialComplex> auto floydWarshall( const SimplicialComplex&
     {
       for( auto j = i+1; j < VertexType(n); j++ )
       {
+        // There is no path via this vertex; the sum might overflow
+        if( M(i,k) == infinity || M(k,j) == infinity )
+          continue;
+
         if( M(i,j) > M(i,k) + M(k,j) )
           M(i,j) = M(i,k) + M(k,j);
       }
-- 
2.43.0


From c5c0997bf32e1f21026561ac79ea61f01560dfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:25:59 +0000
Subject: [PATCH 116/117] fix: report copies of empty symmetric matrices as
 empty

---
 include/aleph/math/SymmetricMatrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/aleph/math/SymmetricMatrix.hh b/include/aleph/math/SymmetricMatrix.hh
index 4df3104..e88ab97 100644
--- a/include/aleph/math/SymmetricMatrix.hh
+++ b/include/aleph/math/SymmetricMatrix.hh
@@ -138,7 +138,7 @@ public:
   /** Checks whether the matrix is empty */
   bool empty() const noexcept
   {
-    return _numRows == 0 && _size == 0 && _data == nullptr;
+    return _numRows == 0 && _size == 0;
   }
 
 private:
-- 
2.43.0


From a3d6d6988a53ba98a06031a03b1f6d5f1286e449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:45:31 +0000
Subject: [PATCH 117/117] fix: keep the indices of a sparse matrix if new ones
 are refused

---
 include/aleph/math/SparseMatrix.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/aleph/math/SparseMatrix.hh b/include/aleph/math/SparseMatrix.hh
index 7dee279..c7bee0e 100644
--- a/include/aleph/math/SparseMatrix.hh
+++ b/include/aleph/math/SparseMatrix.hh
@@ -77,9 +77,11 @@ public:
   /** Sets row/column indices */
   template <class InputIterator> void setIndices( InputIterator begin, InputIterator end )
   {
-    _indexMap.assign( begin, end );
-    if( _indexMap.size() != this->numColumns() )
+    IndexMap indexMap( begin, end );
+    if( indexMap.size() != this->numColumns() )
       throw std::length_error( "Number of indices does not coincide with number of columns" );
+
+    _indexMap.swap( indexMap );
   }
 
   /**
-- 
2.43.0

