From 0e11f001321eda4df491672fda3f6e39807cc914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:40 +0000
Subject: [PATCH 01/62] fix: STL reader keeps solids apart and refuses
 ill-formed facets

Facets of every solid after the first went to the first solid's layer, a
loop with other than three vertices or cut by the end of the file was turned
into a triangle over whatever lay in memory, and read errors went unnoticed.
---
 src/parser/stl/Parser.cpp | 77 ++++++++++++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 22 deletions(-)

diff --git a/src/parser/stl/Parser.cpp b/src/parser/stl/Parser.cpp
index ef2a5af..5ed01c7 100755
--- a/src/parser/stl/Parser.cpp
+++ b/src/parser/stl/Parser.cpp
@@ -21,6 +21,12 @@
 
 #include "Parser.h"
 
+#include <algorithm>
+#include <cmath>
+#include <iterator>
+#include <sstream>
+#include <stdexcept>
+
 namespace SEMBA {
 namespace Parser {
 namespace STL {
@@ -36,25 +42,39 @@ Parser::~Parser() {
 
 }
 
+static Math::CVecR3 readVertex(std::istream& stl) {
+    Math::CVecR3 res;
+    for (std::size_t i = 0; i < 3; i++) {
+        std::string number;
+        char* end = nullptr;
+        stl >> number;
+        res(i) = std::strtod(number.c_str(), &end);
+        if (number.empty() || *end != '\0' || !std::isfinite(res(i))) {
+            throw std::runtime_error("STL file has an ill-formed vertex.");
+        }
+    }
+    return res;
+}
+
 Data Parser::read(std::istream& stl) const {
     // Reads coordinates.
-    std::string label;
+    std::string label, line;
     std::vector<Math::CVecR3> vertices;
     std::size_t nLines = std::count(std::istreambuf_iterator<char>(stl),
                                     std::istreambuf_iterator<char>(), '\n');
     vertices.reserve(nLines);
 	
     stl.seekg(0); // Rewinds.
-    while (stl.peek() != EOF) {
-        stl >> label;
+    while (stl >> label) {
         if (label == "vertex") {
-            Math::CVecR3 vertex;
-            stl >> vertex(Math::Constants::x)
-                >> vertex(Math::Constants::y)
-                >> vertex(Math::Constants::z);
-            vertices.push_back(vertex);
+            vertices.push_back(readVertex(stl));
+        } else if (label == "solid" || label == "endsolid") {
+            std::getline(stl, line); // Skips the name.
         }
     }
+    if (stl.bad()) {
+        throw std::ios_base::failure("STL file can not be read.");
+    }
     Geometry::Coordinate::Group<Geometry::CoordR3> cG;
     cG.addPos(vertices);
 
@@ -63,29 +83,36 @@ Data Parser::read(std::istream& stl) const {
 	stl.seekg(0); // Rewinds.
 	Geometry::Layer::Group<Geometry::Layer::Layer> lG;
     Geometry::Element::Group<Geometry::ElemR> eG;
-    while (stl.peek() != EOF) {
-        stl >> label;
+    bool insideFacet = false;
+    while (stl >> label) {
         if (label == "solid") {
             std::string layerName;
-            stl >> layerName;
+            std::getline(stl, line);
+            std::stringstream(line) >> layerName;
             Geometry::Layer::Layer* lay = 
                 lG.addId(new Geometry::Layer::Layer(layerName))(0);
-            std::string line;
-            while (stl.peek() != EOF) {
-                std::getline(stl, line);
-                if (trim(line) == "outer loop") {
+            while (std::getline(stl, line)) {
+                std::string word;
+                std::stringstream(line) >> word;
+                if (word == "facet") {
+                    insideFacet = true;
+                } else if (word == "endfacet") {
+                    insideFacet = false;
+                } else if (word == "endsolid") {
+                    break;
+                } else if (trim(line) == "outer loop") {
                     std::vector<const Geometry::CoordR3*> coord;
                     coord.reserve(3);
-                    while (stl.peek() != EOF && label != "endloop") {
-                        stl >> label;
+                    while (label != "endloop" && stl >> label) {
                         if (label == "vertex") {
-                            Math::CVecR3 pos;
-                            stl >> pos(Math::Constants::x)
-                                >> pos(Math::Constants::y)
-                                >> pos(Math::Constants::z);
-                            coord.push_back(cG.getPos(pos));
+                            coord.push_back(cG.getPos(readVertex(stl)));
                         }
                     }
+                    if (label != "endloop" || coord.size() != 3 ||
+                        std::count(coord.begin(), coord.end(), nullptr) != 0) {
+                        throw std::runtime_error(
+                                "STL file has an ill-formed facet.");
+                    }
                     label.clear();
                     eG.addId(new Geometry::Tri3(Geometry::ElemId(0),
                                                 &coord[0], lay));
@@ -93,6 +120,12 @@ Data Parser::read(std::istream& stl) const {
             }
         }
     }
+    if (stl.bad()) {
+        throw std::ios_base::failure("STL file can not be read.");
+    }
+    if (insideFacet) {
+        throw std::runtime_error("STL file ends inside a facet.");
+    }
 
     // Stores results and returns.
     Data res;
-- 
2.43.0


From 18a94f0b03fe1f7feb1f846888ce1243c47d898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 02/62] fix: identified groups are left as they were by a
 failed insertion

An insertion refused for a zero or duplicate id, or cut short by lack of
memory, left its elements in the list without an entry in the id index; a
removal or assignment that ran out of memory left the index half built.
---
 src/core/group/Identifiable.h   |  2 +
 src/core/group/Identifiable.hpp | 70 +++++++++++++++++++++------------
 2 files changed, 47 insertions(+), 25 deletions(-)

diff --git a/src/core/group/Identifiable.h b/src/core/group/Identifiable.h
index 4e44dee..8ba3f86 100755
--- a/src/core/group/Identifiable.h
+++ b/src/core/group/Identifiable.h
@@ -48,6 +48,7 @@ public:
     Identifiable(Group<T>&&);
     virtual ~Identifiable();
 
+    Identifiable<T,Id>& operator=(Identifiable<T,Id>&);
     Identifiable<T,Id>& operator=(Group<T>&);
     Identifiable<T,Id>& operator=(Group<T>&&);
 
@@ -88,6 +89,7 @@ private:
     std::map<Id, std::size_t> mapId_;
 
     void postprocess_(const std::size_t& pos);
+    Id   postprocess_(const Group<T>& elems, const std::size_t& pos);
     std::vector<std::size_t> getElemsId_(const std::vector<Id>&) const;
 };
 
diff --git a/src/core/group/Identifiable.hpp b/src/core/group/Identifiable.hpp
index a502457..96eeeab 100755
--- a/src/core/group/Identifiable.hpp
+++ b/src/core/group/Identifiable.hpp
@@ -87,14 +87,17 @@ Identifiable<T,Id>::~Identifiable() {
 
 }
 
+template<typename T, class Id>
+Identifiable<T,Id>& Identifiable<T,Id>::operator=(Identifiable<T,Id>& rhs) {
+    return Identifiable<T,Id>::operator=(static_cast<Group<T>&>(rhs));
+}
+
 template<typename T, class Id>
 Identifiable<T,Id>& Identifiable<T,Id>::operator=(Group<T>& rhs) {
     if (this == &rhs) {
         return *this;
     }
-    Group<T>::operator=(rhs);
-    postprocess_(0);
-    return *this;
+    return Identifiable<T,Id>::operator=(Group<T>(rhs));
 }
 
 template<typename T, class Id>
@@ -102,8 +105,11 @@ Identifiable<T,Id>& Identifiable<T,Id>::operator=(Group<T>&& rhs) {
     if (this == &rhs) {
         return *this;
     }
+    Identifiable<T,Id> aux;
+    Id lastId = aux.postprocess_(rhs, 0);
     Group<T>::operator=(std::move(rhs));
-    postprocess_(0);
+    mapId_.swap(aux.mapId_);
+    lastId_ = lastId;
     return *this;
 }
 
@@ -157,18 +163,21 @@ Identifiable<const T,Id> Identifiable<T,Id>::getId(
 
 template<typename T, class Id>
 Group<T> Identifiable<T,Id>::add(Group<T>& rhs) {
-    std::size_t lastSize = this->size();
-    Group<T>::add(rhs);
-    postprocess_(lastSize);
-    return rhs;
+    return Identifiable<T,Id>::add(Group<T>(rhs));
 }
 
 template<typename T, class Id>
 Group<T> Identifiable<T,Id>::add(Group<T>&& rhs) {
     std::size_t lastSize = this->size();
-    Group<T>::add(std::move(rhs));
-    postprocess_(lastSize);
-    return rhs;
+    Group<T> res(rhs);
+    try {
+        Group<T>::add(res);
+        postprocess_(lastSize);
+    } catch (...) {
+        this->resize(lastSize);
+        throw;
+    }
+    return res;
 }
 
 template<typename T, class Id> template<typename T2>
@@ -206,15 +215,11 @@ Group<T> Identifiable<T,Id>::addId(Group<T>&& rhs) {
 
 template<typename T, class Id>
 void Identifiable<T,Id>::remove(const std::size_t& pos) {
-    mapId_.erase(this->get(pos)->getId());
     Group<T>::remove(pos);
 }
 
 template<typename T, class Id>
 void Identifiable<T,Id>::remove(const std::vector<std::size_t>& pos) {
-    for (std::size_t i = 0; i < pos.size(); i++) {
-        mapId_.erase(this->get(pos[i])->getId());
-    }
     Group<T>::remove(pos);
 }
 
@@ -232,19 +237,34 @@ void Identifiable<T,Id>::removeId(const std::vector<Id>& ids) {
 
 template<typename T, class Id>
 void Identifiable<T,Id>::postprocess_(const std::size_t& firstStep) {
-    for(std::size_t i = firstStep; i < this->size(); i++) {
-        if (this->get(i)->getId() > this->lastId_) {
-            lastId_ = this->get(i)->getId();
-        }
-        if (this->get(i)->getId() == Id(0)) {
-            throw typename Error::Id::Zero<Id>();
+    lastId_ = postprocess_(*this, firstStep);
+}
+
+template<typename T, class Id>
+Id Identifiable<T,Id>::postprocess_(const Group<T>& elems,
+                                    const std::size_t& firstStep) {
+    Id lastId = lastId_;
+    std::size_t i = firstStep;
+    try {
+        for (; i < elems.size(); i++) {
+            const Id id = elems(i)->getId();
+            if (id == Id(0)) {
+                throw typename Error::Id::Zero<Id>();
+            }
+            if (!mapId_.insert(std::make_pair(id, i)).second) {
+                throw typename Error::Id::Duplicated<Id>(id);
+            }
+            if (id > lastId) {
+                lastId = id;
+            }
         }
-        if (mapId_.count(this->get(i)->getId()) == 0) {
-            mapId_[this->get(i)->getId()] = i;
-        } else {
-            throw typename Error::Id::Duplicated<Id>(this->get(i)->getId());
+    } catch (...) {
+        for (std::size_t j = firstStep; j < i; j++) {
+            mapId_.erase(elems(j)->getId());
         }
+        throw;
     }
+    return lastId;
 }
 
 template<typename T, class Id>
-- 
2.43.0


From 3c9e4535b8f910920952afaf520a132cd2428467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 03/62] fix: position index of a coordinate group follows
 failed insertions and scaling

The index kept by position was left out of step with the list by an
insertion, removal or assignment that failed and by scaling with a negative
factor.
---
 src/core/geometry/coordinate/Group.h   |  10 +-
 src/core/geometry/coordinate/Group.hpp | 128 +++++++++++++++----------
 2 files changed, 85 insertions(+), 53 deletions(-)

diff --git a/src/core/geometry/coordinate/Group.h b/src/core/geometry/coordinate/Group.h
index 76cc112..719fddd 100755
--- a/src/core/geometry/coordinate/Group.h
+++ b/src/core/geometry/coordinate/Group.h
@@ -69,6 +69,7 @@ public:
 
     SEMBA_GROUP_DEFINE_CLONE(Group, C);
 
+    Group& operator=(Group&);
     Group& operator=(SEMBA::Group::Group<C>&);
     Group& operator=(SEMBA::Group::Group<C>&&);
 
@@ -93,9 +94,6 @@ public:
     SEMBA::Group::Group<C> addPos(const std::vector<Math::CVecI3>&,
                                   const bool = false);
 
-    void remove(const std::size_t&);
-    void remove(const std::vector<std::size_t>&);
-
     void applyScalingFactor(const Math::Real factor);
     
     void printInfo() const;
@@ -104,7 +102,11 @@ private:
     std::multiset<const CoordR3*, CoordComparator> indexUnstr_;
     std::multiset<const CoordI3*, CoordComparator> indexStr_;
 
-    void postprocess_(const std::size_t i);
+    void postprocess_(const SEMBA::Group::Group<C>& elems);
+    void unindex_(const SEMBA::Group::Group<C>& elems, const std::size_t num);
+    template<typename T>
+    static void erase_(std::multiset<const T*, CoordComparator>& index,
+                       const T* coord);
 };
 
 } /* namespace Coordinate */
diff --git a/src/core/geometry/coordinate/Group.hpp b/src/core/geometry/coordinate/Group.hpp
index c017603..7a06733 100755
--- a/src/core/geometry/coordinate/Group.hpp
+++ b/src/core/geometry/coordinate/Group.hpp
@@ -43,43 +43,43 @@ Group<C>::Group(const std::vector<Math::CVecI3>& pos) {
 template<typename C> template<typename C2>
 Group<C>::Group(C2* elem)
 :   SEMBA::Group::Identifiable<C,Id>(elem) {
-    postprocess_(0);
+    postprocess_(*this);
 }
 
 template<typename C> template<typename C2>
 Group<C>::Group(const std::vector<C2*>& elems)
 :   SEMBA::Group::Identifiable<C,Id>(elems) {
-    postprocess_(0);
+    postprocess_(*this);
 }
 
 template<typename C> template<typename C2>
 Group<C>::Group(SEMBA::Group::Group<C2>& rhs)
 :   SEMBA::Group::Identifiable<C,Id>(rhs) {
-    postprocess_(0);
+    postprocess_(*this);
 }
 
 template<typename C> template<typename C2>
 Group<C>::Group(const SEMBA::Group::Group<C2>& rhs)
 :   SEMBA::Group::Identifiable<C,Id>(rhs) {
-    postprocess_(0);
+    postprocess_(*this);
 }
 
 template<typename C>
 Group<C>::Group(SEMBA::Group::Group<C>& rhs)
 :   SEMBA::Group::Identifiable<C,Id>(rhs) {
-    postprocess_(0);
+    postprocess_(*this);
 }
 
 template<typename C> template<typename C2>
 Group<C>::Group(SEMBA::Group::Group<C2>&& rhs)
 :   SEMBA::Group::Identifiable<C,Id>(std::move(rhs)) {
-    postprocess_(0);
+    postprocess_(*this);
 }
 
 template<typename C>
 Group<C>::Group(SEMBA::Group::Group<C>&& rhs)
 :   SEMBA::Group::Identifiable<C,Id>(std::move(rhs)) {
-    postprocess_(0);
+    postprocess_(*this);
 }
 
 template<typename C>
@@ -87,14 +87,17 @@ Group<C>::~Group() {
 
 }
 
+template<typename C>
+Group<C>& Group<C>::operator=(Group<C>& rhs) {
+    return Group<C>::operator=(static_cast<SEMBA::Group::Group<C>&>(rhs));
+}
+
 template<typename C>
 Group<C>& Group<C>::operator=(SEMBA::Group::Group<C>& rhs) {
     if (this == &rhs) {
         return *this;
     }
-    SEMBA::Group::Identifiable<C,Id>::operator=(rhs);
-    postprocess_(0);
-    return *this;
+    return Group<C>::operator=(SEMBA::Group::Group<C>(rhs));
 }
 
 template<typename C>
@@ -102,8 +105,11 @@ Group<C>& Group<C>::operator=(SEMBA::Group::Group<C>&& rhs) {
     if (this == &rhs) {
         return *this;
     }
+    Group<C> aux;
+    aux.postprocess_(rhs);
     SEMBA::Group::Identifiable<C,Id>::operator=(std::move(rhs));
-    postprocess_(0);
+    indexUnstr_.swap(aux.indexUnstr_);
+    indexStr_.swap(aux.indexStr_);
     return *this;
 }
 
@@ -158,18 +164,18 @@ SEMBA::Group::Group<const C> Group<C>::getAllInPos(
 
 template<typename C>
 SEMBA::Group::Group<C> Group<C>::add(SEMBA::Group::Group<C>& rhs) {
-    std::size_t lastSize = this->size();
-    SEMBA::Group::Identifiable<C,Id>::add(rhs);
-    postprocess_(lastSize);
-    return rhs;
+    return Group<C>::add(SEMBA::Group::Group<C>(rhs));
 }
 
 template<typename C>
 SEMBA::Group::Group<C> Group<C>::add(SEMBA::Group::Group<C>&& rhs) {
-    std::size_t lastSize = this->size();
-    SEMBA::Group::Identifiable<C,Id>::add(std::move(rhs));
-    postprocess_(lastSize);
-    return rhs;
+    postprocess_(rhs);
+    try {
+        return SEMBA::Group::Identifiable<C,Id>::add(std::move(rhs));
+    } catch (...) {
+        unindex_(rhs, rhs.size());
+        throw;
+    }
 }
 
 template<typename C>
@@ -233,38 +239,30 @@ SEMBA::Group::Group<C> Group<C>::addPos(
     return this->addId(newCoords);
 }
 
-template<typename C>
-void Group<C>::remove(const std::size_t& pos) {
-    if (this->get(pos)->template is<CoordR3>()) {
-        indexUnstr_.erase(this->get(pos)->template castTo<CoordR3>());
-    }
-    if (this->get(pos)->template is<CoordI3>()) {
-        indexStr_.erase(this->get(pos)->template castTo<CoordI3>());
-    }
-    SEMBA::Group::Identifiable<C,Id>::remove(pos);
-}
-
-template<typename C>
-void Group<C>::remove(const std::vector<std::size_t>& pos) {
-    for (std::size_t i = 0; i < pos.size(); i++) {
-        if (this->get(pos[i])->template is<CoordR3>()) {
-            indexUnstr_.erase(this->get(pos[i])->template castTo<CoordR3>());
-        }
-        if (this->get(pos[i])->template is<CoordI3>()) {
-            indexStr_.erase(this->get(pos[i])->template castTo<CoordI3>());
-        }
-    }
-    SEMBA::Group::Identifiable<C,Id>::remove(pos);
-}
-
 template<typename C>
 void Group<C>::applyScalingFactor(const Math::Real factor) {
+    std::vector<std::pair<CoordR3*, Math::CVecR3>> old;
+    old.reserve(this->size());
     for(std::size_t i = 0; i < this->size(); i++) {
         if (this->get(i)->template is<CoordR3>()) {
             CoordR3* ptr = this->get(i)->template castTo<CoordR3>();
+            old.push_back(std::make_pair(ptr, ptr->pos()));
             *ptr *= factor;
         }
     }
+    if (factor > 0.0) {
+        return; // Keeps the order in which positions are indexed.
+    }
+    Group<C> aux;
+    try {
+        aux.postprocess_(*this);
+    } catch (...) {
+        for (std::size_t i = 0; i < old.size(); i++) {
+            old[i].first->pos() = old[i].second;
+        }
+        throw;
+    }
+    indexUnstr_.swap(aux.indexUnstr_);
 }
 
 template<typename C>
@@ -275,14 +273,46 @@ void Group<C>::printInfo() const {
 }
 
 template<typename C>
-void Group<C>::postprocess_(const std::size_t fistStep) {
-    for (std::size_t i = fistStep; i < this->size(); i++) {
-        if (this->get(i)->template is<CoordR3>()) {
-            indexUnstr_.insert(this->get(i)->template castTo<CoordR3>());
+void Group<C>::postprocess_(const SEMBA::Group::Group<C>& elems) {
+    std::size_t i = 0;
+    try {
+        for (; i < elems.size(); i++) {
+            if (elems(i)->template is<CoordR3>()) {
+                indexUnstr_.insert(elems(i)->template castTo<CoordR3>());
+            }
+            if (elems(i)->template is<CoordI3>()) {
+                indexStr_.insert(elems(i)->template castTo<CoordI3>());
+            }
         }
-        if (this->get(i)->template is<CoordI3>()) {
-            indexStr_.insert(this->get(i)->template castTo<CoordI3>());
+    } catch (...) {
+        unindex_(elems, i);
+        throw;
+    }
+}
+
+template<typename C>
+void Group<C>::unindex_(const SEMBA::Group::Group<C>& elems,
+                        const std::size_t num) {
+    for (std::size_t i = 0; i < num; i++) {
+        if (elems(i)->template is<CoordR3>()) {
+            erase_(indexUnstr_, elems(i)->template castTo<CoordR3>());
         }
+        if (elems(i)->template is<CoordI3>()) {
+            erase_(indexStr_, elems(i)->template castTo<CoordI3>());
+        }
+    }
+}
+
+template<typename C> template<typename T>
+void Group<C>::erase_(std::multiset<const T*, CoordComparator>& index,
+                      const T* coord) {
+    typename std::multiset<const T*, CoordComparator>::iterator
+        it = index.lower_bound(coord);
+    while (it != index.end() && *it != coord) {
+        ++it;
+    }
+    if (it != index.end()) {
+        index.erase(it);
     }
 }
 
-- 
2.43.0


From 88e5f06a8af404b3141b88bded9f4d9384e97301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 04/62] fix: removing a folder removes exactly that folder,
 whatever its name

---
 src/core/filesystem/Project.cpp | 34 ++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 8549bd7..360c9ad 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -21,12 +21,16 @@
 
 #include "Project.h"
 
+#include <cerrno>
+#include <cstdio>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <stdexcept>
 
 #ifndef _WIN32
 #include <dirent.h>
+#include <ftw.h>
 #include <libgen.h>
 #include <sys/stat.h>
 #else
@@ -37,6 +41,13 @@
 namespace SEMBA {
 namespace FileSystem {
 
+#ifndef _WIN32
+static int removeEntry_(const char* path, const struct stat*, int,
+                        struct FTW*) {
+    return remove(path);
+}
+#endif
+
 Project::Project() {
 
 }
@@ -62,7 +73,8 @@ void Project::initDir_(const std::string& fn) const {
     if (checkExistance_(dirname)) {
         return;
     }
-    if (mkdir(dirname.c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH)) {
+    if (mkdir(dirname.c_str(), S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH) &&
+        !checkExistance_(dirname)) { // Something else may have just made it.
         throw std::logic_error("Folder could not be created.");
     }
 #endif
@@ -261,14 +273,18 @@ void Project::deleteDirIfExists_(const std::string& directory) const {
 #else
 
     // Deletes if exists.
-    if (checkExistance_(directory)) {
-        std::string command = "rm -r ";
-        command += directory;
-        if (system(command.c_str())) {
-            std::cout << std::endl << "WARNING @ Project: ";
-            std::cout << "System command failed to execute " << command
-                      << std::endl;
-        }
+    struct stat sb;
+    bool failed = false;
+    if (stat(directory.c_str(), &sb) != 0) {
+        failed = (errno != ENOENT) && (errno != ENOTDIR);
+    } else if (S_ISDIR(sb.st_mode)) {
+        failed = nftw(directory.c_str(), removeEntry_, 16,
+                      FTW_DEPTH | FTW_PHYS) != 0;
+    }
+    if (failed) {
+        std::cout << std::endl << "WARNING @ Project: ";
+        std::cout << "Dir " << directory
+                  << " deletion failed" << std::endl;
     }
 #endif
 }
-- 
2.43.0


From 546b7803cd423843aee062a68fe510d00c92ab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 05/62] fix: path questions survive failing system calls and
 keep the path text

---
 src/core/filesystem/Project.cpp | 38 ++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 360c9ad..42f19c5 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -141,7 +141,8 @@ std::string Project::getBasename() const {
     _splitpath(getFilename().c_str(), nullptr, nullptr, fname, ext);
     std::string res = std::string(fname) + ext;
 #else
-    std::string res(basename(const_cast<char*>(c_str())));
+    std::vector<char> cstr(c_str(), c_str() + length() + 1);
+    std::string res(basename(cstr.data()));
 #endif
     return res;
 }
@@ -301,8 +302,7 @@ bool Project::checkExistance_(const std::string& fn) const {
     }
 #else
     struct stat sb;
-    exists = (stat(fn.c_str(), &sb) == 0);
-    exists &= S_ISDIR(sb.st_mode);
+    exists = (stat(fn.c_str(), &sb) == 0) && S_ISDIR(sb.st_mode);
 #endif
     return exists;
 }
@@ -314,9 +314,19 @@ Project Project::relativeTo(const Project& rhs) const {
     } else {
         rhsFolder = rhs.getFolder();
     }
+    if (!rhsFolder.empty() && rhsFolder.find_last_of("/\\") !=
+                              rhsFolder.length() - 1) {
+        rhsFolder += "/";
+    }
     std::string name = getFilename();
-    std::string res = name.substr(name.find(rhsFolder) + rhsFolder.length(),
-                                  name.length());
+    if (name + "/" == rhsFolder) {
+        return Project();
+    }
+    std::size_t pos = name.find(rhsFolder);
+    if (pos == std::string::npos) {
+        return *this;
+    }
+    std::string res = name.substr(pos + rhsFolder.length(), name.length());
     return Project(res);
 }
 
@@ -331,8 +341,7 @@ bool Project::isFolder() const {
     return false;
 #else
     struct stat sb;
-    stat(c_str(), &sb);
-    return S_ISDIR(sb.st_mode);
+    return (stat(c_str(), &sb) == 0) && S_ISDIR(sb.st_mode);
 #endif
 }
 
@@ -361,13 +370,26 @@ std::string Project::getExtension() const {
     if (pos == 0) {
         return *this;
     }
+    if (find_first_of("/\\", pos) != std::string::npos) {
+        return *this; // The dot belongs to the name of a folder.
+    }
     return this->substr(pos, std::string::npos);
 }
 
 std::string Project::getFullPath() const {
     std::string res;
 #ifndef _WIN32
-    res = (const char*) realpath(this->getFilename().c_str(), nullptr);
+    char* path = realpath(this->getFilename().c_str(), nullptr);
+    if (path == nullptr) {
+        throw std::ios_base::failure("Can not resolve path " + *this);
+    }
+    try {
+        res = path;
+    } catch (...) {
+        free(path);
+        throw;
+    }
+    free(path);
     if (Project(res).isFolder()) {
         res += "/";
     }
-- 
2.43.0


From 34d8820acaaf48f88392c14389e82646a39bd570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:22 +0000
Subject: [PATCH 06/62] fix: progress lines fit the terminal and times are
 never negative

---
 src/core/util/ProgressBar.cpp | 31 +++++++++++++++++++++++--------
 src/core/util/ProgressBar.h   |  4 +++-
 2 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/core/util/ProgressBar.cpp b/src/core/util/ProgressBar.cpp
index bd84d84..760272d 100755
--- a/src/core/util/ProgressBar.cpp
+++ b/src/core/util/ProgressBar.cpp
@@ -73,9 +73,10 @@ void ProgressBar::advance(const std::size_t& size) {
     if (!init_) {
         return;
     }
-    step_ += size;
-    if (step_ >= size_) {
+    if (size >= size_ - step_) {
         step_ = size_;
+    } else {
+        step_ += size;
     }
     Clock::time_point timeAct = Clock::now();
     if (std::chrono::duration_cast<Milliseconds>(timeAct-timeAct_).count() >=
@@ -133,7 +134,7 @@ void ProgressBar::printLine_() const {
     if (name.size() > sizeName) {
         name = name.substr(0, sizeName-3) + "...";
     }
-    std::cout << std::left << std::setw(sizeName) << name;
+    std::cout << std::left << std::setw(sizeName) << std::setfill(' ') << name;
     pos += sizeName;
     if (pos + sizeSpaces >= sizeCon) {
         return;
@@ -191,13 +192,13 @@ void ProgressBar::printLine_() const {
     std::cout << " ";
     pos++;
     if (sizeBar < 3) {
-        printSpaces_(3);
+        printSpaces_(sizeBar);
     } else {
         std::cout << "[";
         std::size_t sizeBarInt = sizeBar - 2;
         std::size_t toFill = sizeBarInt;
         if (size_ != 0) {
-            toFill = (step_*sizeBarInt)/size_;
+            toFill = getShare_(sizeBarInt);
         }
         for (std::size_t i = 0; i < sizeBarInt; i++) {
             if ((i <= toFill) & ((step_ != 0) || (size_ == 0))) {
@@ -217,7 +218,7 @@ void ProgressBar::printLine_() const {
         std::cout << std::right << std::setw(3) << std::setfill(' ') << 100;
     } else {
         std::cout << std::right << std::setw(3) << std::setfill(' ')
-                  << (step_ * 100) / size_;
+                  << getShare_(100);
     }
     std::cout << "%";
 }
@@ -238,12 +239,20 @@ std::size_t ProgressBar::getSize_() const {
         return size;
     }
     struct winsize w;
-    ioctl(0, TIOCGWINSZ, &w);
-    size = w.ws_col;
+    if (ioctl(fileno(stdout), TIOCGWINSZ, &w) == 0) {
+        size = w.ws_col;
+    }
 #endif
     return size;
 }
 
+std::size_t ProgressBar::getShare_(const std::size_t total) const {
+    if (step_ <= std::numeric_limits<std::size_t>::max() / total) {
+        return (step_ * total) / size_;
+    }
+    return std::min(step_ / (size_ / total), total);
+}
+
 void ProgressBar::printSpaces_(const std::size_t spaces) const {
     for (std::size_t i = 0; i < spaces; i++) {
         std::cout << " ";
@@ -265,6 +274,12 @@ void ProgressBar::printSize_(const std::size_t size) const {
     } else if (size < 100000000000000UL) {
         print = size/1000000000UL;
         unit  = "G";
+    } else if (size < 100000000000000000UL) {
+        print = size/1000000000000UL;
+        unit  = "T";
+    } else {
+        print = size/1000000000000000UL;
+        unit  = "P";
     }
     std::cout << std::right << std::setw(5) << std::setfill(' ') << print;
     std::cout << unit;
diff --git a/src/core/util/ProgressBar.h b/src/core/util/ProgressBar.h
index 9df2e48..989f039 100755
--- a/src/core/util/ProgressBar.h
+++ b/src/core/util/ProgressBar.h
@@ -27,6 +27,7 @@
 #include <cstdio>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <string>
 
 #ifdef _WIN32
@@ -57,7 +58,7 @@ public:
     void end();
 
 private:
-    typedef std::chrono::high_resolution_clock Clock;
+    typedef std::chrono::steady_clock Clock;
 
     typedef std::chrono::duration<double> Duration;
     typedef std::chrono::milliseconds     Milliseconds;
@@ -77,6 +78,7 @@ private:
 
     void printLine_() const;
     std::size_t getSize_() const;
+    std::size_t getShare_(const std::size_t total) const;
     void printSpaces_(const std::size_t) const;
     void printSize_(const std::size_t) const;
 };
-- 
2.43.0


From fbdfd30df21b91cf82892c1a4403b82edf72f5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:58 +0000
Subject: [PATCH 07/62] fix: describing an object gives the output stream back
 as it was

---
 src/core/argument/Object.h |  5 ++--
 src/core/class/Printable.h | 53 ++++++++++++++++++++++++++++++++++----
 2 files changed, 50 insertions(+), 8 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 0706994..826fde3 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -331,13 +331,12 @@ public:
         case Object::Type::String:
             if (isNumber() && !asString) {
                 if (isInt()) {
-                    std::cout.precision(
-                        std::numeric_limits<long long>::max_digits10);
                     std::cout << getInt();
                 } else {
-                    std::cout.precision(
+                    const std::streamsize precision = std::cout.precision(
                         std::numeric_limits<long double>::max_digits10);
                     std::cout << getReal();
+                    std::cout.precision(precision);
                 }
             } else {
                 const std::list<std::string>& val = getGenericString();
diff --git a/src/core/class/Printable.h b/src/core/class/Printable.h
index ba93659..f589a32 100755
--- a/src/core/class/Printable.h
+++ b/src/core/class/Printable.h
@@ -37,13 +37,56 @@ public:
 
 	std::string str() const {
 		std::stringstream buffer;
-		std::streambuf * old = std::cout.rdbuf(buffer.rdbuf());
-
-		this->printInfo();
-
-		std::cout.rdbuf(old);
+		{
+			const Redirection redirection(std::cout, buffer.rdbuf());
+			this->printInfo();
+		}
 		return buffer.str();
 	}
+
+private:
+	// Sends a stream's output to another buffer during its lifetime. The
+	// stream gets back its buffer, state and format however that ends. Output
+	// that can not be stored meanwhile is an exception instead of being lost.
+	class Redirection {
+	public:
+		Redirection(std::ostream& stream, std::streambuf* buffer)
+		:	stream_(stream),
+			state_(stream.rdstate()),
+			exceptions_(stream.exceptions()),
+			flags_(stream.flags()),
+			precision_(stream.precision()),
+			width_(stream.width()),
+			fill_(stream.fill()),
+			buffer_(stream.rdbuf(buffer)) {
+			stream_.exceptions(std::ios_base::badbit);
+		}
+		~Redirection() {
+			stream_.exceptions(std::ios_base::goodbit);
+			stream_.rdbuf(buffer_);
+			stream_.flags(flags_);
+			stream_.precision(precision_);
+			stream_.width(width_);
+			stream_.fill(fill_);
+			try {
+				stream_.clear(state_);
+				stream_.exceptions(exceptions_);
+			} catch (...) {
+			}
+		}
+	private:
+		Redirection(const Redirection&);
+		Redirection& operator=(const Redirection&);
+
+		std::ostream&           stream_;
+		std::ios_base::iostate  state_;
+		std::ios_base::iostate  exceptions_;
+		std::ios_base::fmtflags flags_;
+		std::streamsize         precision_;
+		std::streamsize         width_;
+		char                    fill_;
+		std::streambuf*         buffer_;
+	};
 };
 
 } /* namespace Class */
-- 
2.43.0


From c3e300eaa735e0154d08cc35fc7ca9ecfada7129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:20 +0000
Subject: [PATCH 08/62] fix: magnitudes without a function can be copied,
 compared and described; assignment frees the old function

---
 src/core/source/magnitude/Magnitude.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/core/source/magnitude/Magnitude.cpp b/src/core/source/magnitude/Magnitude.cpp
index 4f3b63c..b7ff6e2 100755
--- a/src/core/source/magnitude/Magnitude.cpp
+++ b/src/core/source/magnitude/Magnitude.cpp
@@ -21,6 +21,9 @@
 
 #include "Magnitude.h"
 
+#include <stdexcept>
+#include <utility>
+
 namespace SEMBA {
 namespace Source {
 namespace Magnitude {
@@ -34,8 +37,11 @@ Magnitude::Magnitude(Math::FunctionRR* mathFunction) {
 }
 
 Magnitude::Magnitude(const Magnitude& rhs) {
-    mathFunction_ =
-        dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    mathFunction_ = nullptr;
+    if (rhs.mathFunction_ != nullptr) {
+        mathFunction_ =
+            dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    }
 }
 
 Magnitude::~Magnitude() {
@@ -48,21 +54,31 @@ Magnitude& Magnitude::operator=(const Magnitude& rhs) {
     if (this == &rhs) {
         return *this;
     }
-    mathFunction_ =
-        dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    Magnitude copy(rhs);
+    std::swap(mathFunction_, copy.mathFunction_);
     return *this;
 }
 
 bool Magnitude::operator ==(const Magnitude& rhs) const {
+    if (mathFunction_ == nullptr || rhs.mathFunction_ == nullptr) {
+        return mathFunction_ == rhs.mathFunction_;
+    }
     return *mathFunction_ == *rhs.mathFunction_;
 }
 
 void Magnitude::printInfo() const {
     std::cout << " --- Magnitude ---" << std::endl;
+    if (mathFunction_ == nullptr) {
+        std::cout << "No function" << std::endl;
+        return;
+    }
     mathFunction_->printInfo();
 }
 
 Math::Real Magnitude::evaluate(const Math::Real time) const {
+    if (mathFunction_ == nullptr) {
+        throw std::logic_error("Magnitude has no function to evaluate");
+    }
     return mathFunction_->operator()(time);
 }
 
-- 
2.43.0


From 8dcf876662dc3c682e10246ef9e7c68c47333189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:53 +0000
Subject: [PATCH 09/62] fix: copying a model keeps its ports' dimensions and
 whatever has no mesh; assignment releases the old content

---
 src/core/Data.cpp          | 92 +++++++++++---------------------------
 src/core/source/Source.h   |  4 ++
 src/core/source/Source.hpp |  6 +++
 3 files changed, 36 insertions(+), 66 deletions(-)

diff --git a/src/core/Data.cpp b/src/core/Data.cpp
index 538db1a..03ca17f 100755
--- a/src/core/Data.cpp
+++ b/src/core/Data.cpp
@@ -21,6 +21,8 @@
 
 #include "Data.h"
 
+#include <utility>
+
 namespace SEMBA {
 
 Data::Data() {
@@ -31,13 +33,8 @@ Data::Data() {
     outputRequests = nullptr;
 }
 
-Data::Data(const Data& rhs) {
-
-    solver = nullptr;
-    mesh = nullptr;
-    physicalModels = nullptr;
-    sources = nullptr;
-    outputRequests = nullptr;
+Data::Data(const Data& rhs)
+:   Data() {
 
     if (rhs.solver != nullptr) {
         solver = new Solver::Info(*rhs.solver);
@@ -54,28 +51,27 @@ Data::Data(const Data& rhs) {
         } else {
             mesh->reassignPointers();
         }
+    }
 
-        if (rhs.outputRequests != nullptr) {
-            outputRequests = rhs.outputRequests->clone();
-            for (size_t i = 0; i < outputRequests->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> outRqElems =
-                        (*outputRequests)(i)->elems();
-                mesh->reassign(outRqElems);
-                (*outputRequests)(i)->set(outRqElems);
-            }
+    if (rhs.outputRequests != nullptr) {
+        outputRequests = rhs.outputRequests->clone();
+        for (size_t i = 0; mesh != nullptr && i < outputRequests->size(); ++i) {
+            Geometry::Element::Group<const Geometry::Elem> outRqElems =
+                    (*outputRequests)(i)->elems();
+            mesh->reassign(outRqElems);
+            (*outputRequests)(i)->set(outRqElems);
         }
+    }
 
-        if (rhs.sources != nullptr) {
-            sources = rhs.sources->clone();
-            for (size_t i = 0; i < sources->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> sourceElems =
-                        (*sources)(i)->elems();
-                mesh->reassign(sourceElems);
-                (*sources)(i)->set(sourceElems);
-            }
+    if (rhs.sources != nullptr) {
+        sources = rhs.sources->clone();
+        for (size_t i = 0; mesh != nullptr && i < sources->size(); ++i) {
+            Geometry::Element::Group<const Geometry::Elem> sourceElems =
+                    (*sources)(i)->elems();
+            mesh->reassign(sourceElems);
+            (*sources)(i)->reassign(sourceElems);
         }
     }
-
 }
 
 Data::~Data() {
@@ -101,48 +97,12 @@ Data& Data::operator=(const Data& rhs) {
         return *this;
     }
 
-    solver = nullptr;
-    mesh = nullptr;
-    physicalModels = nullptr;
-    sources = nullptr;
-    outputRequests = nullptr;
-
-    if (rhs.solver != nullptr) {
-        solver = new Solver::Info(*rhs.solver);
-    }
-
-    if (rhs.physicalModels != nullptr) {
-        physicalModels = rhs.physicalModels->clone();
-    }
-
-    if (rhs.mesh != nullptr) {
-        mesh = rhs.mesh->cloneTo<Geometry::Mesh::Mesh>();
-        if (physicalModels != nullptr) {
-            mesh->reassignPointers(*physicalModels);
-        } else {
-            mesh->reassignPointers();
-        }
-
-        if (rhs.outputRequests != nullptr) {
-            outputRequests = rhs.outputRequests->clone();
-            for (size_t i = 0; i < outputRequests->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> outRqElems =
-                        (*outputRequests)(i)->elems();
-                mesh->reassign(outRqElems);
-                (*outputRequests)(i)->set(outRqElems);
-            }
-        }
-
-        if (rhs.sources != nullptr) {
-            sources = rhs.sources->clone();
-            for (size_t i = 0; i < sources->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> sourceElems =
-                        (*sources)(i)->elems();
-                mesh->reassign(sourceElems);
-                (*sources)(i)->set(sourceElems);
-            }
-        }
-    }
+    Data copy(rhs);
+    std::swap(solver, copy.solver);
+    std::swap(mesh, copy.mesh);
+    std::swap(physicalModels, copy.physicalModels);
+    std::swap(sources, copy.sources);
+    std::swap(outputRequests, copy.outputRequests);
 
     return *this;
 }
diff --git a/src/core/source/Source.h b/src/core/source/Source.h
index 5b81f53..722cca6 100755
--- a/src/core/source/Source.h
+++ b/src/core/source/Source.h
@@ -52,6 +52,9 @@ public:
             const Geometry::Element::Group<const Geometry::Elem>&) = 0;
     virtual void add(
             const Geometry::Element::Group<const Geometry::Elem>&) = 0;
+    // Replaces the elements by their counterparts in a copy of the mesh.
+    virtual void reassign(
+            const Geometry::Element::Group<const Geometry::Elem>&) = 0;
 
     template<class T>
     bool magnitudeIs() const {
@@ -85,6 +88,7 @@ public:
 
     void set(const Geometry::Element::Group<const Geometry::Elem>&);
     void add(const Geometry::Element::Group<const Geometry::Elem>&);
+    void reassign(const Geometry::Element::Group<const Geometry::Elem>&);
 
     virtual Source* clone() const = 0;
     Geometry::Element::Group<const Geometry::Elem> elems() const {
diff --git a/src/core/source/Source.hpp b/src/core/source/Source.hpp
index 80a512f..c6d9993 100755
--- a/src/core/source/Source.hpp
+++ b/src/core/source/Source.hpp
@@ -36,6 +36,12 @@ void Source<T>::add(
     Geometry::Element::Group<const T>::add(elems);
 }
 
+template <class T>
+void Source<T>::reassign(
+        const Geometry::Element::Group<const Geometry::Elem>& elems) {
+    Geometry::Element::Group<const T>::operator=(elems);
+}
+
 template<class T>
 void Source<T>::printInfo() const {
     Base::printInfo();
-- 
2.43.0


From 0d2cbd67d789b5c9f6705f98e8945fbd1a103e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:53 +0000
Subject: [PATCH 10/62] fix: a mesh whose assignment runs out of memory does
 not refer to released coordinates

---
 src/core/geometry/mesh/Structured.cpp   | 22 ++++++++++++++--------
 src/core/geometry/mesh/Unstructured.cpp | 18 ++++++++++++------
 2 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/core/geometry/mesh/Structured.cpp b/src/core/geometry/mesh/Structured.cpp
index d7f5185..9aab1aa 100755
--- a/src/core/geometry/mesh/Structured.cpp
+++ b/src/core/geometry/mesh/Structured.cpp
@@ -67,14 +67,20 @@ Structured& Structured::operator=(const Structured& rhs) {
         return *this;
     }
 
-    grid_ = rhs.grid_;
-    coords_ = rhs.coords().cloneElems();
-    elems_ = rhs.elems().cloneElems();
-    layers_ = rhs.layers().cloneElems();
-    bounds_ = rhs.bounds();
-
-    elems_.reassignPointers(this->coords());
-    elems_.reassignPointers(this->layers());
+    Structured copy(rhs);
+    try {
+        grid_ = copy.grid_;
+        coords_ = std::move(copy.coords_);
+        elems_ = std::move(copy.elems_);
+        layers_ = std::move(copy.layers_);
+        bounds_ = copy.bounds_;
+    } catch (...) {
+        // No element may be left referring to coordinates that are gone.
+        elems_.clear();
+        coords_.clear();
+        layers_.clear();
+        throw;
+    }
 
     return *this;
 }
diff --git a/src/core/geometry/mesh/Unstructured.cpp b/src/core/geometry/mesh/Unstructured.cpp
index 6f55741..c78a096 100755
--- a/src/core/geometry/mesh/Unstructured.cpp
+++ b/src/core/geometry/mesh/Unstructured.cpp
@@ -61,12 +61,18 @@ Unstructured& Unstructured::operator=(const Unstructured& rhs) {
         return *this;
     }
 
-    coords_ = rhs.coords().cloneElems();
-    elems_ = rhs.elems().cloneElems();
-    layers_ = rhs.layers().cloneElems();
-
-    elems_.reassignPointers(this->coords());
-    elems_.reassignPointers(this->layers());
+    Unstructured copy(rhs);
+    try {
+        coords_ = std::move(copy.coords_);
+        elems_ = std::move(copy.elems_);
+        layers_ = std::move(copy.layers_);
+    } catch (...) {
+        // No element may be left referring to coordinates that are gone.
+        elems_.clear();
+        coords_.clear();
+        layers_.clear();
+        throw;
+    }
 
     return *this;
 }
-- 
2.43.0


From bd12e9696e204ebcac86cd45c0669d75476d74c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:36 +0000
Subject: [PATCH 11/62] fix: VTK exports keep parts of the same name apart,
 escape names and report what can not be stored

---
 src/exporter/vtk/Exporter.cpp | 62 ++++++++++++++++++++++++++++-------
 src/exporter/vtk/Exporter.h   |  6 ++++
 2 files changed, 57 insertions(+), 11 deletions(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index d39d262..14338ed 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -21,6 +21,8 @@
 
 #include "Exporter.h"
 
+#include <memory>
+
 #include "geometry/mesh/Unstructured.h"
 #include "geometry/element/Triangle.h"
 #include "geometry/element/Quadrilateral.h"
@@ -57,22 +59,23 @@ void Exporter::writeMesh_(const Data* smb) {
     const Geometry::Grid3* grid = nullptr;
     assert(inMesh != nullptr);
     assert(mat != nullptr);
-    const Geometry::Mesh::Unstructured* mesh;
+    std::unique_ptr<const Geometry::Mesh::Unstructured> mesh;
     const Geometry::Mesh::Structured* meshStr;
     std::string preName;
     if (inMesh->is<Geometry::Mesh::Structured>()) {
         meshStr = inMesh->castTo<Geometry::Mesh::Structured>();
-        mesh = meshStr->getMeshUnstructured();
+        mesh.reset(meshStr->getMeshUnstructured());
         preName = "str_";
         grid = &inMesh->castTo<Geometry::Mesh::Structured>()->grid();
     } else {
         meshStr = nullptr;
-        mesh = inMesh->cloneTo<Geometry::Mesh::Unstructured>();
+        mesh.reset(inMesh->cloneTo<Geometry::Mesh::Unstructured>());
         grid = nullptr;
     }
 
     std::string filename = getFilename() + ".pvd";
-    std::ofstream outFile(filename.c_str());
+    std::ofstream outFile;
+    open_(outFile, filename);
     outFile << "<?xml version=\"1.0\"?>" << std::endl;
     outFile << "<VTKFile "
             << "type=\"Collection\" "
@@ -151,26 +154,32 @@ void Exporter::writeMesh_(const Data* smb) {
     // Closes file.
     outFile << "  " << "</Collection>" << std::endl;
     outFile << "</VTKFile>" << std::endl;
-
-    delete mesh;
+    close_(outFile, filename);
 }
 
 void Exporter::writeFile_(const Group::Group<const Geometry::ElemR>& elems,
-                          const std::string& name,
+                          const std::string& partName,
                           std::ofstream& outMain,
                           std::size_t& part) {
     if (elems.empty()) {
         return;
     }
+    // Parts of the same name are kept in files of their own.
+    std::string name = partName;
+    for (std::size_t i = 2; !partNames_.insert(name).second; i++) {
+        name = partName + "_" + std::to_string(i);
+    }
     outMain << "    " << "<DataSet "
-            << "group=\"" << name << "\" "
+            << "group=\"" << escape_(name) << "\" "
             << "part=\"" << part++ << "\" "
             << "file=\""
-            << getBasename() + ".vtk" + Separator + name + ".vtu" << "\" "
+            << escape_(getBasename() + ".vtk" + Separator + name + ".vtu")
+            << "\" "
             << "/>" << std::endl;
 
     std::string filename = getFilename() + ".vtk" + Separator + name + ".vtu";
-    std::ofstream outFile(filename.c_str());
+    std::ofstream outFile;
+    open_(outFile, filename);
     outFile << "<VTKFile "
             << "type=\"UnstructuredGrid\" "
             << "version=\"0.1\" "
@@ -187,7 +196,7 @@ void Exporter::writeFile_(const Group::Group<const Geometry::ElemR>& elems,
     writeCells_(outFile, elems, aux.second);
     outFile << "  " << "</UnstructuredGrid>" << std::endl;
     outFile << "</VTKFile>" << std::endl;
-    outFile.close();
+    close_(outFile, filename);
 }
 
 std::pair<std::vector<Math::CVecR3>, std::map<Geometry::CoordId, std::size_t>>
@@ -294,6 +303,37 @@ std::string Exporter::makeValid_(const std::string& allocator) {
     return res;
 }
 
+std::string Exporter::escape_(const std::string& text) {
+    std::string res;
+    for (std::size_t i = 0; i < text.size(); i++) {
+        switch (text[i]) {
+        case '&':  res += "&amp;";  break;
+        case '<':  res += "&lt;";   break;
+        case '>':  res += "&gt;";   break;
+        case '"':  res += "&quot;"; break;
+        case '\t': res += "&#9;";   break;
+        case '\n': res += "&#10;";  break;
+        case '\r': res += "&#13;";  break;
+        default:   res += text[i];  break;
+        }
+    }
+    return res;
+}
+
+void Exporter::open_(std::ofstream& file, const std::string& filename) {
+    file.open(filename.c_str());
+    if (!file) {
+        throw std::ios_base::failure("File could not be created: " + filename);
+    }
+}
+
+void Exporter::close_(std::ofstream& file, const std::string& filename) {
+    file.close();
+    if (!file) {
+        throw std::ios_base::failure("File could not be written: " + filename);
+    }
+}
+
 } /* namespace VTK */
 } /* namespace Exporter */
 } /* namespace SEMBA */
diff --git a/src/exporter/vtk/Exporter.h b/src/exporter/vtk/Exporter.h
index cbc6f77..ec49ef4 100755
--- a/src/exporter/vtk/Exporter.h
+++ b/src/exporter/vtk/Exporter.h
@@ -23,6 +23,7 @@
 #define SEMBA_EXPORTER_VTK_EXPORTER_H_
 
 #include <fstream>
+#include <set>
 #include <utility>
 #include <algorithm>
 
@@ -77,6 +78,11 @@ private:
             std::map<Geometry::CoordId, std::size_t>& mapCoords);
 
     static std::string makeValid_(const std::string&);
+    static std::string escape_(const std::string&);
+    static void open_ (std::ofstream&, const std::string& filename);
+    static void close_(std::ofstream&, const std::string& filename);
+
+    std::set<std::string> partNames_;
 };
 
 } /* namespace VTK */
-- 
2.43.0


From eff7ae6e34271a20b6ec22ec5e99d03b7a23d61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 12/62] fix: GiD exporter numbers each file on its own, exports
 every triangle and tetrahedron, and leaves the model alone

---
 src/exporter/gid/Exporter.cpp | 46 +++++++++++++++++++++++------------
 src/exporter/gid/Exporter.h   |  6 ++---
 2 files changed, 33 insertions(+), 19 deletions(-)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 995e699..5be0ddf 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -28,13 +28,17 @@
 #include "geometry/mesh/Structured.h"
 #include "geometry/mesh/Unstructured.h"
 
+#include <algorithm>
+#include <ios>
+#include <map>
+#include <memory>
+#include <stdexcept>
+
 namespace SEMBA {
 namespace Exporter {
 namespace GiD {
     
 Math::Int Exporter::numberOfOutputGiD_ = 0;
-Math::Int Exporter::coordCounter_ = 0;
-Math::Int Exporter::elemCounter_ = 0;
 
 const Math::CVecR3 pecColor(255, 0, 0);
 const Math::CVecR3 pmcColor(0, 255, 0);
@@ -51,6 +55,8 @@ void Exporter::init_(
     mode_ = mode;
     meshFile_ = 0;
     resultFile_ = 0;
+    coordCounter_ = 0;
+    elemCounter_ = 0;
     if (numberOfOutputGiD_ == 0) {
         GiD_PostInit();
     }
@@ -68,12 +74,20 @@ void Exporter::init_(
         throw std::logic_error("Invalid GiD exporting mode.");
     }
 
-    Math::Real scalingFactor =
-        smb->solver->getSettings()("geometryScalingFactor").getReal();
+    // Geometry scaling is undone in a copy, the exported data is not changed.
+    Math::Real scalingFactor = 0.0;
+    if (smb->solver != nullptr &&
+        smb->solver->getSettings().existsName("geometryScalingFactor")) {
+        scalingFactor =
+            smb->solver->getSettings()("geometryScalingFactor").getReal();
+    }
+    assert(smb->mesh != nullptr);
+    std::unique_ptr<Geometry::Mesh::Mesh> scaled;
     if (scalingFactor != 0.0) {
-        smb->mesh->applyScalingFactor(1.0 / scalingFactor);
+        scaled.reset(smb->mesh->cloneTo<Geometry::Mesh::Mesh>());
+        scaled->applyScalingFactor(1.0 / scalingFactor);
     }
-    writeMesh_(smb);
+    writeMesh_(smb, scaled.get() != nullptr ? scaled.get() : smb->mesh);
 }
 
 Exporter::Exporter(
@@ -104,14 +118,14 @@ void Exporter::writeAllElements_(
         const std::string& name) {
     writeElements_(elem.getOf<Geometry::NodR>(),  name, GiD_Point, 1);
     writeElements_(elem.getOf<Geometry::LinR2>(), name, GiD_Linear, 2);
-    writeElements_(elem.getOf<Geometry::Tri3>() , name, GiD_Triangle, 3);
+    writeElements_(elem.getOf<Geometry::Tri>(),   name, GiD_Triangle, 3);
     writeElements_(elem.getOf<Geometry::QuaR4>(), name, GiD_Quadrilateral, 4);
-    writeElements_(elem.getOf<Geometry::Tet4>(),  name, GiD_Tetrahedra, 4);
+    writeElements_(elem.getOf<Geometry::Tet>(),   name, GiD_Tetrahedra, 4);
     writeElements_(elem.getOf<Geometry::HexR8>(), name, GiD_Hexahedra, 8);
 }
 
-void Exporter::writeMesh_(const Data* smb) {
-    const Geometry::Mesh::Mesh* inMesh = smb->mesh;
+void Exporter::writeMesh_(const Data* smb,
+                          const Geometry::Mesh::Mesh* inMesh) {
     const PhysicalModel::Group<>* mat = smb->physicalModels;
     const Source::Group<>* srcs = smb->sources;
     const OutputRequest::Group<>* oRqs = smb->outputRequests;
@@ -119,10 +133,12 @@ void Exporter::writeMesh_(const Data* smb) {
     assert(inMesh != nullptr);
     assert(mat != nullptr);
     const Geometry::Mesh::Unstructured* mesh;
+    std::unique_ptr<const Geometry::Mesh::Unstructured> meshAux;
     std::string preName;
     if (inMesh->is<Geometry::Mesh::Structured>()) {
 
-        mesh = inMesh->castTo<Geometry::Mesh::Structured>()->getMeshUnstructured();
+        meshAux.reset(inMesh->castTo<Geometry::Mesh::Structured>()->getMeshUnstructured());
+        mesh = meshAux.get();
         preName = "str_";
         grid = &inMesh->castTo<Geometry::Mesh::Structured>()->grid();
     } else {
@@ -188,10 +204,8 @@ void Exporter::writeMesh_(const Data* smb) {
     Group::Group<Geometry::ElemR> gridAux = getGridElems(cG, grid);
     writeAllElements_(gridAux, "Grid");
     //
-    GiD_FlushPostFile();
-    //
-    if (inMesh->is<Geometry::Mesh::Structured>()) {
-        delete mesh;
+    if (GiD_fFlushPostFile(meshFile_) != 0) {
+        throw std::ios_base::failure("GiD mesh file could not be written.");
     }
 }
 
@@ -205,7 +219,7 @@ void Exporter::writeElements_(
     }
     Math::UInt tmpCounter = coordCounter_;
     std::vector<int> nId(nV);
-    beginMesh(name, GiD_3D, type, nV);
+    beginMesh(makeValid_(name), GiD_3D, type, nV);
     std::map<Geometry::CoordId, Geometry::CoordR3*> pos;
     for(std::size_t i = 0; i < elem.size(); i++) {
         for (Math::Int j = 0; j < nV; j++) {
diff --git a/src/exporter/gid/Exporter.h b/src/exporter/gid/Exporter.h
index 2414a3b..db4d353 100755
--- a/src/exporter/gid/Exporter.h
+++ b/src/exporter/gid/Exporter.h
@@ -60,8 +60,8 @@ public:
     void flushPostFile() const;
 
 private:
-    static Math::Int coordCounter_;
-    static Math::Int elemCounter_;
+    Math::Int coordCounter_;
+    Math::Int elemCounter_;
     static Math::Int numberOfOutputGiD_;
 
     GiD_FILE meshFile_;
@@ -69,7 +69,7 @@ private:
     GiD_PostMode mode_;
 
     void init_(const Data* smb, GiD_PostMode mode, const std::string& fn);
-    void writeMesh_(const Data* smb);
+    void writeMesh_(const Data* smb, const Geometry::Mesh::Mesh* inMesh);
     void writeElements_(
             const Group::Group<const Geometry::ElemR>& entities,
             const std::string& name,
-- 
2.43.0


From 91f97b1c8bd4fe3805aa9d5af8e05be5c7057a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:12 +0000
Subject: [PATCH 13/62] fix: GiD exporter reports files that cannot be created
 or written and closes them once

---
 external/gidpost/gidpostInt.c |  6 ++++--
 external/gidpost/zlibint1.c   |  5 ++++-
 src/exporter/gid/Exporter.cpp | 26 ++++++++++++++++++++++----
 src/exporter/gid/Exporter.h   |  1 +
 4 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/external/gidpost/gidpostInt.c b/external/gidpost/gidpostInt.c
index ddc53c9..5cd98f8 100755
--- a/external/gidpost/gidpostInt.c
+++ b/external/gidpost/gidpostInt.c
@@ -387,7 +387,9 @@ int CPostAscii_Close(CPostFile *this)
   assert(this);
 
   if ( this->m_FILE ) {
-    this->m_fail = fclose(this->m_FILE);
+    /* a failed write may be noticed only here */
+    int failed = ferror(this->m_FILE);
+    this->m_fail = fclose(this->m_FILE) || failed;
     this->m_FILE = NULL;
   } else
     this->m_fail = 1;
@@ -397,7 +399,7 @@ int CPostAscii_Close(CPostFile *this)
 static
 int CPostAscii_Flush(CPostFile* this)
 {
-  return this->m_FILE ? fflush(this->m_FILE) : 1;
+  return this->m_FILE ? fflush(this->m_FILE) || ferror(this->m_FILE) : 1;
 }
 
 static
diff --git a/external/gidpost/zlibint1.c b/external/gidpost/zlibint1.c
index 5d956e7..19b57d0 100755
--- a/external/gidpost/zlibint1.c
+++ b/external/gidpost/zlibint1.c
@@ -616,6 +616,7 @@ local int destroy (s)
     gz_stream *s;
 {
     int err = Z_OK;
+    int failed;
 
     if (!s) return Z_STREAM_ERROR;
 
@@ -632,12 +633,14 @@ local int destroy (s)
 	    err = inflateEnd(&(s->stream));
 	}
     }
+    failed = s->file != NULL && s->mode == 'w' && ferror(s->file);
     if (s->file != NULL && fclose(s->file)) {
 #ifdef ESPIPE
 	if (errno != ESPIPE) /* fclose is broken for pipes in HP/UX */
 #endif
 	    err = Z_ERRNO;
     }
+    if (failed) err = Z_ERRNO;
     if (s->z_err < 0) err = s->z_err;
 
     TRYFREE(s->inbuf);
@@ -943,7 +946,7 @@ int ZEXPORT gzflush (file, flush)
     int err = do_flush (file, flush);
 
     if (err) return err;
-    fflush(s->file);
+    if (fflush(s->file) || ferror(s->file)) return Z_ERRNO;
     return  s->z_err == Z_STREAM_END ? Z_OK : s->z_err;
 }
 #endif /* NO_DEFLATE */
diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 5be0ddf..f53e201 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -95,22 +95,34 @@ Exporter::Exporter(
         const std::string& fn,
         GiD_PostMode mode)
 : 	SEMBA::Exporter::Exporter(fn) {
-    init_(smb, mode, fn);
+    try {
+        init_(smb, mode, fn);
+    } catch (...) {
+        close_();
+        throw;
+    }
 }
 
 Exporter::~Exporter() {
+    close_();
+}
+
+void Exporter::close_() {
     switch (mode_) {
     case GiD_PostAscii:
-        GiD_fClosePostMeshFile(meshFile_);
+        if (meshFile_ != 0) {
+            GiD_fClosePostMeshFile(meshFile_);
+        }
         break;
     default:
-        GiD_fClosePostResultFile(resultFile_);
+        if (resultFile_ != 0) {
+            GiD_fClosePostResultFile(resultFile_);
+        }
     }
     if (numberOfOutputGiD_ == 1) {
         GiD_PostDone();
     }
     numberOfOutputGiD_--;
-    GiD_fClosePostMeshFile(meshFile_);
 }
 
 void Exporter::writeAllElements_(
@@ -294,6 +306,9 @@ void Exporter::openPostMeshFile_(
     strcpy(auxChar, filename.c_str());
     meshFile_ = GiD_fOpenPostMeshFile(auxChar, mode_);
     delete [] auxChar;
+    if (meshFile_ == 0) {
+        throw std::ios_base::failure("File could not be created: " + filename);
+    }
 }
 
 void Exporter::openPostResultFile_(
@@ -306,6 +321,9 @@ void Exporter::openPostResultFile_(
         meshFile_ = resultFile_;
     }
     delete [] auxChar;
+    if (resultFile_ == 0) {
+        throw std::ios_base::failure("File could not be created: " + filename);
+    }
 }
 
 void Exporter::flushPostFile() const {
diff --git a/src/exporter/gid/Exporter.h b/src/exporter/gid/Exporter.h
index db4d353..3947419 100755
--- a/src/exporter/gid/Exporter.h
+++ b/src/exporter/gid/Exporter.h
@@ -90,6 +90,7 @@ private:
 
     void openPostMeshFile_(const std::string& filename);
     void openPostResultFile_(const std::string& filename);
+    void close_();
 
     void writeMaterialsInLayer_(const Geometry::Layer::Layer* lay);
     void writeAllElements_(
-- 
2.43.0


From fa70212cbbcc56b151bedbaa76bf03d06a0d1f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:03 +0000
Subject: [PATCH 14/62] fix: elements of converted meshes refer to the layers
 of their own mesh

---
 src/core/geometry/mesh/Structured.cpp   | 1 +
 src/core/geometry/mesh/Unstructured.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/geometry/mesh/Structured.cpp b/src/core/geometry/mesh/Structured.cpp
index 9aab1aa..d7601ec 100755
--- a/src/core/geometry/mesh/Structured.cpp
+++ b/src/core/geometry/mesh/Structured.cpp
@@ -112,6 +112,7 @@ Unstructured* Structured::getMeshUnstructured() const {
     }
     res->elems().add(newElems);
     res->layers() = layers().cloneElems();
+    res->elems().reassignPointers(res->layers());
     return res;
 }
 
diff --git a/src/core/geometry/mesh/Unstructured.cpp b/src/core/geometry/mesh/Unstructured.cpp
index c78a096..de8c5fc 100755
--- a/src/core/geometry/mesh/Unstructured.cpp
+++ b/src/core/geometry/mesh/Unstructured.cpp
@@ -101,6 +101,7 @@ Structured* Unstructured::getMeshStructured(const Grid3& grid,
     }
     res->elems().add(newElems);
     res->layers() = layers().cloneElems();
+    res->elems().reassignPointers(res->layers());
     return res;
 }
 
-- 
2.43.0


From 0b39a20776b6339aa11b1c86cf5e64253ea75be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:53 +0000
Subject: [PATCH 15/62] fix: tables of samples that can not be read to their
 end are reported

A token that was not a number left a sample of zero and, as the end was
never reached, an endless loop.
---
 src/core/math/function/LinearInterpolation.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/math/function/LinearInterpolation.hpp b/src/core/math/function/LinearInterpolation.hpp
index 7149542..d3c6440 100755
--- a/src/core/math/function/LinearInterpolation.hpp
+++ b/src/core/math/function/LinearInterpolation.hpp
@@ -21,6 +21,8 @@
 
 #include "LinearInterpolation.h"
 
+#include <cctype>
+#include <cstdio>
 #include <fstream>
 
 namespace SEMBA {
@@ -112,9 +114,15 @@ void LinearInterpolation<S, T>::initFromFile(
                                      std::string(" does not exist"));
     }
 
-    while (!iStream.eof()) {
+    // Every token must belong to a sample and the file must reach its end.
+    while (!(iStream >> std::ws).eof()) {
         std::pair<Real, Real> value;
-        iStream >> value.first >> value.second;
+        if (!(iStream >> value.first) || !std::isspace(iStream.peek()) ||
+            !(iStream >> value.second) ||
+            !(iStream.peek() == EOF || std::isspace(iStream.peek()))) {
+            throw std::ios_base::failure(std::string("File: ") + file +
+                                         std::string(" can not be read"));
+        }
         value_.insert(value);
     }
 
-- 
2.43.0


From ddcb2885da40a52b4ffc36dc28b66af9d0c558ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:55 +0000
Subject: [PATCH 16/62] fix: tabulated excitations report files that can not be
 written and keep their samples

The first and last samples are always written, the default step is used
when none was given, neighbours are compared by relative difference and
values with three digits in their exponent stay apart from their time.
---
 src/core/source/magnitude/Numerical.cpp | 26 ++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/core/source/magnitude/Numerical.cpp b/src/core/source/magnitude/Numerical.cpp
index d07d98c..c1e983f 100755
--- a/src/core/source/magnitude/Numerical.cpp
+++ b/src/core/source/magnitude/Numerical.cpp
@@ -48,11 +48,13 @@ Numerical::Numerical(const FileSystem::Project& file,
         operator=(*mag.castTo<Numerical>());
         return;
     }
+    Math::Real step = timeStep;
     std::size_t nSteps;
     if (timeStep != 0.0) {
         nSteps = (std::size_t)std::abs(finalTime / timeStep);
     } else {
         nSteps = defaultNumberOfSteps;
+        step = finalTime / nSteps;
         std::cerr << "WARNING @ Numerical: "
                   << "Attempting to build a "
                   << "numerical magnitude with a 0.0 step."
@@ -64,13 +66,17 @@ Numerical::Numerical(const FileSystem::Project& file,
     out << std::scientific;
     out.precision(10);
     out.open(file.c_str());
+    if (!out) {
+        throw std::ios_base::failure("File: " + file +
+                                     " can not be created");
+    }
 
     Math::Real time = 0.0;
     for (std::size_t i = 0; i < nSteps; i++) {
         // Determines if neigh values are aligned with current.
         std::vector<std::pair<Math::Real,Math::Real>> preAndPost;
-        const Math::Real tPre = time - timeStep;
-        const Math::Real tPost = time + timeStep;
+        const Math::Real tPre = time - step;
+        const Math::Real tPost = time + step;
         preAndPost.push_back(
             std::pair<Math::Real,Math::Real>(tPre, mag.evaluate(tPre)));
         preAndPost.push_back(
@@ -79,17 +85,23 @@ Numerical::Numerical(const FileSystem::Project& file,
             Math::Function::LinearInterpolation<Math::Real,Math::Real>(
                 preAndPost)(time);
         const Math::Real current = mag.evaluate(time);
-        bool isAligned = Math::Util::equal(current, interpolated,
-                0.0, std::numeric_limits<Math::Real>::epsilon());
-        if (!isAligned) {
+        bool isAligned = std::abs(current - interpolated) <=
+                std::numeric_limits<Math::Real>::epsilon() *
+                std::abs(current + interpolated);
+        // First and last samples have no neighbours to be aligned with.
+        if (!isAligned || i == 0 || i + 1 == nSteps) {
             out << std::setw(16) << std::setfill(' ') << time 
-                << std::setw(18) << std::setfill(' ') << current 
+                << std::setw(19) << std::setfill(' ') << current 
                 << std::endl;
         }
         //
-        time += timeStep;
+        time += step;
     }
     out.close();
+    if (!out) {
+        throw std::ios_base::failure("File: " + file +
+                                     " can not be written");
+    }
 
     Magnitude::operator=(
         Magnitude(
-- 
2.43.0


From b32c556f7a998c809514390618829c1a49dcce1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:13 +0000
Subject: [PATCH 17/62] fix: JSON documents that can not be read are reported

Errors of the parser and of the mesh were swallowed, so a damaged document
gave a model without its mesh.  Only what was left out, or grids as written
for former versions, is read as a model without mesh.
---
 src/parser/json/Parser.cpp | 55 ++++++++++++++++++++++++++------------
 src/parser/json/Parser.h   |  1 +
 2 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 8bac27e..7f9040d 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -55,12 +55,7 @@ namespace JSON {
 Data Parser::read(std::istream& stream) const {
 
     json j;
-    try {
-        stream >> j;
-    }
-    catch( const std::exception & ex ) {
-        std::cerr << ex.what() << std::endl;
-    }
+    stream >> j;
 
     Util::ProgressBar progress;
     progress.init("Parser GiD-JSON", 7, 0);
@@ -150,17 +145,43 @@ Solver::Settings Parser::readSolverSettings(const json& j) {
 
 Geometry::Mesh::Geometric* Parser::readGeometricMesh(
         const PhysicalModel::Group<>& physicalModels, const json& j) {
-    try {
-        Geometry::Grid3 grid = readGrids(j);
-        Geometry::Layer::Group<> layers = readLayers(j);
-        Geometry::Coordinate::Group<Geometry::CoordR3> coords = readCoordinates(j);
-        Geometry::Element::Group<Geometry::ElemR> elements =
-                readElements(physicalModels, layers, coords, j);
-        return new Geometry::Mesh::Geometric(grid, coords, elements, layers);
-    }
-    catch (...) {
+    if (!hasMesh(j)) {
         return nullptr;
     }
+    Geometry::Grid3 grid = readGrids(j);
+    Geometry::Layer::Group<> layers = readLayers(j);
+    Geometry::Coordinate::Group<Geometry::CoordR3> coords = readCoordinates(j);
+    Geometry::Element::Group<Geometry::ElemR> elements =
+            readElements(physicalModels, layers, coords, j);
+    return new Geometry::Mesh::Geometric(grid, coords, elements, layers);
+}
+
+bool Parser::hasMesh(const json& j) {
+    // The mesh may be left out together with all that lies on it.
+    static const std::vector<std::string> labels = {
+            "grids", "layers", "coordinates", "elements",
+            "connectorOnPoint", "sources", "outputRequests"};
+    bool res = false;
+    for (std::size_t i = 0; i < labels.size(); i++) {
+        res |= (j.find(labels[i]) != j.end());
+    }
+    // Grids as written for former versions can not be meshed.
+    if (j.find("grids") != j.end() && j.at("grids").is_array() &&
+            !j.at("grids").empty() && j.at("grids").front().is_object()) {
+        const json& g = j.at("grids").front();
+        const bool empty[3] = {
+                g.value("xCoordinates", json()) == json::array(),
+                g.value("yCoordinates", json()) == json::array(),
+                g.value("zCoordinates", json()) == json::array()};
+        if (g.find("directions") != g.end() ||
+                (empty[0] && empty[1] && empty[2] &&
+                 g.find("corner")      == g.end() &&
+                 g.find("boxSize")     == g.end() &&
+                 g.find("nGridPoints") == g.end())) {
+            res = false;
+        }
+    }
+    return res;
 }
 
 Source::Group<>* Parser::readSources(
@@ -188,10 +209,10 @@ Source::Group<>* Parser::readSources(
 }
 
 PhysicalModel::Group<>* Parser::readPhysicalModels(const json& j){
+    PhysicalModel::Group<>* res = new PhysicalModel::Group<>();
     if (j.find("materials") == j.end()) {
-        return nullptr;
+        return res;
     }
-    PhysicalModel::Group<>* res = new PhysicalModel::Group<>();
     json mats = j.at("materials");
     for (json::const_iterator it = mats.begin(); it != mats.end(); ++it) {
         res->add(readPhysicalModel( *it ));
diff --git a/src/parser/json/Parser.h b/src/parser/json/Parser.h
index d6d0e6d..bde05b3 100755
--- a/src/parser/json/Parser.h
+++ b/src/parser/json/Parser.h
@@ -70,6 +70,7 @@ private:
     static PhysicalModel::Group<>* readPhysicalModels(const json&);
     static Geometry::Mesh::Geometric* readGeometricMesh(
             const PhysicalModel::Group<>&, const json&);
+    static bool hasMesh(const json&);
 	static void readConnectorOnPoint(
 			PMGroup& pMG,
 			Geometry::Mesh::Geometric& mesh, 
-- 
2.43.0


From 1100fad8190bb0a7acbb45bc2d269a53c295700c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:27 +0000
Subject: [PATCH 18/62] fix: coordinates, elements, boxes, vectors and axes
 that are too short are reported

---
 src/parser/json/Parser.cpp | 15 +++++++++++++++
 src/parser/json/Parser.h   |  3 +++
 2 files changed, 18 insertions(+)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 7f9040d..1661f24 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -499,6 +499,9 @@ Geometry::Coordinate::Group<Geometry::CoordR3> Parser::readCoordinates(
         Math::CVecR3 pos;
         std::stringstream ss(it->get<std::string>());
         ss >> id >> pos(0) >> pos(1) >> pos(2);
+        if (ss.fail()) {
+            throw std::logic_error("Wrong coordinate: " + ss.str());
+        }
         res.add(new Geometry::CoordR3(id, pos));
     }
     return res;
@@ -852,6 +855,9 @@ std::pair<Math::CVecR3, Math::CVecR3> Parser::strToBox(
     for (std::size_t i = 0; i < 3; i++) {
         iss >> min(i);
     }
+    if (iss.fail()) {
+        throw std::logic_error("Wrong box: " + value);
+    }
     return {min, max};
 }
 
@@ -863,6 +869,9 @@ Math::CVecI3 Parser::strToCVecI3(std::string str) {
     ss >> res(Math::Constants::x)
        >> res(Math::Constants::y)
        >> res(Math::Constants::z);
+    if (ss.fail()) {
+        throw std::logic_error("Wrong vector: " + str);
+    }
     return res;
 }
 
@@ -874,6 +883,9 @@ Math::CVecR3 Parser::strToCVecR3(std::string str) {
     ss >> res(Math::Constants::x)
        >> res(Math::Constants::y)
        >> res(Math::Constants::z);
+    if (ss.fail()) {
+        throw std::logic_error("Wrong vector: " + str);
+    }
     return res;
 }
 
@@ -976,6 +988,9 @@ bool Parser::checkVersionCompatibility(const std::string& version) {
 Math::Axis::Local Parser::strToLocalAxes(const std::string& str) {
     std::size_t begin = str.find_first_of("{");
     std::size_t end = str.find_first_of("}");
+    if (begin == str.find_last_of("{")) {
+        throw std::logic_error("Wrong local axes: " + str);
+    }
     Math::CVecR3 eulerAngles = strToCVecR3(str.substr(begin+1,end-1));
     begin = str.find_last_of("{");
     end = str.find_last_of("}");
diff --git a/src/parser/json/Parser.h b/src/parser/json/Parser.h
index bde05b3..b89f88e 100755
--- a/src/parser/json/Parser.h
+++ b/src/parser/json/Parser.h
@@ -181,6 +181,9 @@ Geometry::Element::Group<Geometry::ElemR> readElemStrAs(
         for (std::size_t j = 0; j < T::sizeOfCoordinates; j++) {
             ss >> vId[j];
         }
+        if (ss.fail()) {
+            throw std::logic_error("Wrong element: " + ss.str());
+        }
 
         const Geometry::Layer::Layer* layerPtr;
         const PhysicalModel::PhysicalModel* matPtr;
-- 
2.43.0


From ada4311a7ced2f65ec3d3ca0b32a0d40de46dad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:42 +0000
Subject: [PATCH 19/62] fix: grids without positions or with positions files
 that can not be read are reported

---
 src/parser/json/Parser.cpp | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 1661f24..965b835 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -562,6 +562,9 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
         throw std::logic_error("Grids object not found.");
     }
 
+    if (j.at("grids").empty()) {
+        throw std::logic_error("Grids object is empty.");
+    }
     json g = j.at("grids").front();
     std::string gridType = g.at("gridType").get<std::string>();
     if (gridType.compare("gridCondition") == 0) {
@@ -619,8 +622,11 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
         pos[0] = g.at("xCoordinates").get<std::vector<double>>();
         pos[1] = g.at("yCoordinates").get<std::vector<double>>();
         pos[2] = g.at("zCoordinates").get<std::vector<double>>();
-        if (!pos[0].empty()) {
+        if (!pos[0].empty() && !pos[1].empty() && !pos[2].empty()) {
             return Geometry::Grid3(pos);
+        } else if (!pos[0].empty() || !pos[1].empty() || !pos[2].empty()) {
+            throw std::logic_error(
+                "Grid had empty positions in at least one direction");
         } else {
             std::pair<Math::CVecR3, Math::CVecR3> box =
             { corner, corner + boxSize };
@@ -632,19 +638,12 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
         FileSystem::Project file(g.at("filename").get<std::string>());
         std::ifstream fileStream(file);
         std::stringstream ss;
-        ss << "{";
-        if (fileStream) {
-            ss << fileStream.rdbuf();
-            fileStream.close();
-        }
-        ss << "}";
-        json jsonGridPos;
-        try {
-            ss >> jsonGridPos;
-        }
-        catch (const std::exception& ex) {
-            std::cerr << ex.what() << std::endl;
+        ss << "{" << fileStream.rdbuf() << "}";
+        if (!fileStream || !ss) {
+            throw std::ios_base::failure("File: " + file +
+                                         " can not be read");
         }
+        json jsonGridPos = json::parse(ss);
         std::vector<Math::Real> pos[3];
         pos[0] = jsonGridPos.at("xs").get<std::vector<double>>();
         pos[1] = jsonGridPos.at("ys").get<std::vector<double>>();
-- 
2.43.0


From 39483e978b6a7a7380dac4805a1943d1e8d2d60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:54 +0000
Subject: [PATCH 20/62] fix: requests and sources on elements of the wrong kind
 are reported

---
 src/parser/json/Parser.cpp | 7 +++++--
 src/parser/json/Parser.h   | 8 +++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 965b835..ab66bbc 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -444,8 +444,11 @@ OutputRequest::Base* Parser::readOutputRequest(
 			boxToElemGroup(mesh, j.at("box").get<std::string>()));
 	} else if (gidOutputType.compare("Far_field") == 0) {
 		static const Math::Real degToRad = 2.0 * Math::Constants::pi / 360.0;
-		return new OutputRequest::FarField(domain, name,
-			boxToElemGroup(mesh, j.at("box").get<std::string>()),
+		auto elems = boxToElemGroup(mesh, j.at("box").get<std::string>());
+		if (elems.sizeOf<Geometry::Vol>() == 0) {
+			throw std::logic_error("Far field box must define a volume");
+		}
+		return new OutputRequest::FarField(domain, name, elems,
 			j.at("initialTheta").get<double>() * degToRad,
 			j.at("finalTheta").get<double>()   * degToRad,
 			j.at("stepTheta").get<double>()    * degToRad,
diff --git a/src/parser/json/Parser.h b/src/parser/json/Parser.h
index b89f88e..b1f8423 100755
--- a/src/parser/json/Parser.h
+++ b/src/parser/json/Parser.h
@@ -155,7 +155,13 @@ Geometry::Element::Group<T> readElemIdsAsGroupOf(
 		Geometry::Mesh::Geometric& mesh, const json& j) {
 	Geometry::Element::Group<T> geometricElements;
 	for (auto it = j.begin(); it != j.end(); ++it) {
-		geometricElements.add(mesh.elems().getId(Geometry::ElemId(it->get<int>()) ));
+		Geometry::ElemR* elem =
+				mesh.elems().getId(Geometry::ElemId(it->get<int>()));
+		if (!elem->template is<T>()) {
+			throw std::logic_error("Element " + elem->getId().toStr() +
+					" is not of the kind required");
+		}
+		geometricElements.add(elem);
 	}
 	return geometricElements;
 }
-- 
2.43.0


From f96b1dc1e0776c41ba6aeae293b5f824f552923c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:58 +0000
Subject: [PATCH 21/62] fix: bulk current requests keep the type they are given

---
 src/core/outputRequest/BulkCurrent.cpp | 5 +++--
 src/core/outputRequest/BulkCurrent.h   | 3 ++-
 src/parser/json/Parser.cpp             | 6 +++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/outputRequest/BulkCurrent.cpp b/src/core/outputRequest/BulkCurrent.cpp
index 74a71a4..43ef352 100755
--- a/src/core/outputRequest/BulkCurrent.cpp
+++ b/src/core/outputRequest/BulkCurrent.cpp
@@ -29,8 +29,9 @@ BulkCurrent::BulkCurrent(
         const std::string& name,
         const Geometry::Element::Group<const Geometry::Elem>& elem,
         const Math::Constants::CartesianAxis& dir,
-        const Math::UInt& skip)
-:   SEMBA::OutputRequest::Base(bulkCurrentElectric, name, domain),
+        const Math::UInt& skip,
+        const SEMBA::OutputRequest::Base::Type type)
+:   SEMBA::OutputRequest::Base(type, name, domain),
     Geometry::Element::Group<const Geometry::Elem>(elem) {
 
     dir_ = dir;
diff --git a/src/core/outputRequest/BulkCurrent.h b/src/core/outputRequest/BulkCurrent.h
index bf7be2d..4489443 100755
--- a/src/core/outputRequest/BulkCurrent.h
+++ b/src/core/outputRequest/BulkCurrent.h
@@ -33,7 +33,8 @@ public:
                 const std::string& name,
                 const Geometry::Element::Group<const Geometry::Elem>& box,
                 const Math::Constants::CartesianAxis& dir,
-                const Math::UInt& skip);
+                const Math::UInt& skip,
+                const SEMBA::OutputRequest::Base::Type type = bulkCurrentElectric);
     BulkCurrent(const BulkCurrent& rhs);
     virtual ~BulkCurrent();
 
diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index ab66bbc..a666203 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -413,18 +413,18 @@ OutputRequest::Base* Parser::readOutputRequest(
 			return new OutputRequest::BulkCurrent(domain, name,
 				boxToElemGroup(mesh, j.at("box").get<std::string>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		} else if (gidOutputType.compare("OutRq_on_point") == 0) {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readCoordIdAsNodes(mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		} else {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readElemIdsAsGroupOf<const Geometry::Elem>(
 					mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		}
 	}
 
-- 
2.43.0


From 7dffb31925d5f05d11927ad52dc4b9ffc17360e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:58 +0000
Subject: [PATCH 22/62] fix: rectangular waveguide ports follow the scaling of
 their elements

---
 src/core/parser/Parser.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/core/parser/Parser.cpp b/src/core/parser/Parser.cpp
index 8508c09..6c6ef25 100755
--- a/src/core/parser/Parser.cpp
+++ b/src/core/parser/Parser.cpp
@@ -21,6 +21,8 @@
 
 #include "Parser.h"
 
+#include "source/port/WaveguideRectangular.h"
+
 namespace SEMBA {
 namespace Parser {
 
@@ -65,6 +67,15 @@ void Parser::postReadOperations(Data& res) const {
                         "Unable to find geometryScalingFactor "
                         "during postReadOperations");
             }
+            if (res.sources != nullptr) {
+                // Rectangular ports keep the box of their elements.
+                for (std::size_t i = 0; i < res.sources->size(); i++) {
+                    Source::Base* source = (*res.sources)(i);
+                    if (source->is<Source::Port::WaveguideRectangular>()) {
+                        source->set(source->elems());
+                    }
+                }
+            }
         }
     }
 }
-- 
2.43.0


From 20664bc41d430a09346f546ea522e2be2704286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 23/62] fix: grids have the cells asked for and upper padding
 starts from the cell at the border

---
 src/core/geometry/Grid.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index a3bcb1b..0ec63d5 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -44,7 +44,8 @@ Grid<D>::Grid(const BoxRD& box,
         if (dxyz(i) == (Math::Real) 0.0) {
             nCells = 1;
         } else {
-            nCells = ceil(boxLength / dxyz(i));
+            nCells = (std::size_t) Math::Util::ceil(boxLength / dxyz(i),
+                    (Math::Real) 1e-9);
             if (Math::Util::greater(boxLength, nCells*dxyz(i),
                     dxyz(i), tolerance)) {
                 nCells++;
@@ -637,7 +638,7 @@ void Grid<D>::enlargeBound(Math::Constants::CartesianAxis d,
         boundCell = this->getNumCells()(d) - 1;
     }
     std::vector<Math::Real> newSteps;
-    if (Math::Util::greaterEqual(getStep(d,b), siz) || siz == 0.0) {
+    if (Math::Util::greaterEqual(getStep(d,boundCell), siz) || siz == 0.0) {
         siz = getStep(d,boundCell);
         // Computes enlargement for a padding with same size.
         Math::Real nCellsFrac = std::abs(pad/siz);
@@ -660,7 +661,7 @@ void Grid<D>::enlargeBound(Math::Constants::CartesianAxis d,
             // Newton method to adjust the sum of available space.
             Math::Real f = 1;
             const Math::Real threshold =
-                    std::numeric_limits<Math::Real>::epsilon()*1.0e6;
+                    std::numeric_limits<Math::Real>::epsilon()*1.0e6*d13;
             while (std::abs(f) >= threshold) {
                 f = t0 * (1-pow(r,n)) / (1-r) - d13;
                 Math::Real df = t0*(1-pow(r,n))/pow(1-r,2) - 
-- 
2.43.0


From 695a9977246066c9a6ffb1e0e39811ea7499d6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:13 +0000
Subject: [PATCH 24/62] fix: plane waves perpendicular up to rounding are
 accepted

---
 src/core/source/PlaneWave.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/source/PlaneWave.cpp b/src/core/source/PlaneWave.cpp
index 1bc8e16..6479d13 100755
--- a/src/core/source/PlaneWave.cpp
+++ b/src/core/source/PlaneWave.cpp
@@ -183,8 +183,10 @@ void PlaneWave::init_(Math::CVecR3 direction, Math::CVecR3 polarization) {
     if (direction_.norm() == 0) {
         throw Error::PlaneWave::ZeroMagnitude();
     }
+    const Math::Real tolerance = 1e-6;
     Math::Real dotProd = direction.dot(polarization);
-    if (Math::Util::notEqual(dotProd, 0.0)) {
+    if (!(std::abs(dotProd) <=
+            tolerance * direction_.norm() * polarization_.norm())) {
         throw Error::PlaneWave::NotPerpendicular();
     }
 }
-- 
2.43.0


From 2bdcbc26d6dd6a0117ee18db8f7c2e40b2df13f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:26 +0000
Subject: [PATCH 25/62] fix: JSON documents with lists, domains or coordinate
 ids of the wrong form are reported

---
 src/parser/json/Parser.cpp | 36 ++++++++++++++++++++++++++----------
 src/parser/json/Parser.h   |  7 +++++++
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index a666203..3144363 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -156,6 +156,14 @@ Geometry::Mesh::Geometric* Parser::readGeometricMesh(
     return new Geometry::Mesh::Geometric(grid, coords, elements, layers);
 }
 
+const json& Parser::getList(const json& j, const std::string& label) {
+    const json& res = j.at(label);
+    if (!res.is_array()) {
+        throw std::logic_error(label + " is not a list.");
+    }
+    return res;
+}
+
 bool Parser::hasMesh(const json& j) {
     // The mesh may be left out together with all that lies on it.
     static const std::vector<std::string> labels = {
@@ -188,7 +196,7 @@ Source::Group<>* Parser::readSources(
         Geometry::Mesh::Geometric& mesh, const json& j) {
     Source::Group<>* res = new Source::Group<>();
 
-    const json& sources = j.at("sources").get<json>();
+    const json& sources = getList(j, "sources");
     for (json::const_iterator it = sources.begin(); it != sources.end(); ++it) {
         std::string sourceType = it->at("sourceType").get<std::string>();
         if (sourceType.compare("planewave") == 0) {
@@ -213,7 +221,7 @@ PhysicalModel::Group<>* Parser::readPhysicalModels(const json& j){
     if (j.find("materials") == j.end()) {
         return res;
     }
-    json mats = j.at("materials");
+    const json& mats = getList(j, "materials");
     for (json::const_iterator it = mats.begin(); it != mats.end(); ++it) {
         res->add(readPhysicalModel( *it ));
     }
@@ -350,7 +358,7 @@ OutputRequest::Group<>* Parser::readOutputRequests(
         Geometry::Mesh::Geometric& mesh, const json& j) {
 
     OutputRequest::Group<>* res = new OutputRequest::Group<>();
-    const json& outs = j.at("outputRequests").get<json>();
+    const json& outs = getList(j, "outputRequests");
     for (json::const_iterator it = outs.begin(); it != outs.end(); ++it) {
         res->add(readOutputRequest(mesh, *it));
     }
@@ -361,7 +369,7 @@ void Parser::readConnectorOnPoint(
 	PMGroup& pMG,
 	Geometry::Mesh::Geometric& mesh, 
 	const json& j) {
-	const json& conns = j.at("connectorOnPoint").get<json>();
+	const json& conns = getList(j, "connectorOnPoint");
 	for (auto it = conns.begin(); it != conns.end(); it++) {
 		PhysicalModel::PhysicalModel* mat = readPhysicalModel(*it);
 		pMG.addId(mat);
@@ -479,7 +487,7 @@ Geometry::Layer::Group<> Parser::readLayers(const json& j) {
     }
 
     Geometry::Layer::Group<> res;
-    const json layers = j.at("layers");
+    const json& layers = getList(j, "layers");
     for (json::const_iterator it = layers.begin(); it != layers.end(); ++it) {
         res.add(new Geometry::Layer::Layer(
                 Geometry::Layer::Id(it->at("id").get<int>()),
@@ -496,13 +504,15 @@ Geometry::Coordinate::Group<Geometry::CoordR3> Parser::readCoordinates(
     }
 
     Geometry::Coordinate::Group<Geometry::CoordR3> res;
-    const json& c = j.at("coordinates").get<json>();
+    const json& c = getList(j, "coordinates");
     for (json::const_iterator it = c.begin(); it != c.end(); ++it) {
         Geometry::CoordId id;
         Math::CVecR3 pos;
         std::stringstream ss(it->get<std::string>());
-        ss >> id >> pos(0) >> pos(1) >> pos(2);
-        if (ss.fail()) {
+        ss >> id;
+        const bool hasId = std::isspace(ss.peek()) != 0;
+        ss >> pos(0) >> pos(1) >> pos(2);
+        if (!hasId || ss.fail()) {
             throw std::logic_error("Wrong coordinate: " + ss.str());
         }
         res.add(new Geometry::CoordR3(id, pos));
@@ -539,8 +549,8 @@ PhysicalModel::Surface::Multilayer* Parser::readMultilayerSurface(
     std::string name = mat.at("name").get<std::string>();
 
     std::vector<PhysicalModel::Surface::Multilayer::Layer> layers;
-    for (json::const_iterator it = mat.at("layers").begin();
-            it != mat.at("layers").end(); ++it) {
+    const json& list = getList(mat, "layers");
+    for (json::const_iterator it = list.begin(); it != list.end(); ++it) {
         layers.push_back(
                 PhysicalModel::Surface::Multilayer::Layer(
                         it->at("thickness").get<double>(),
@@ -914,6 +924,9 @@ Source::OnLine::Hardness Parser::strToNodalHardness(std::string str) {
 }
 
 OutputRequest::Domain Parser::readDomain(const json& j) {
+    if (!j.is_object()) {
+        throw std::logic_error("Output request domain is not an object.");
+    }
     bool timeDomain = false;
 	Math::Real initialTime = 0.0;
 	Math::Real finalTime = 0.0;
@@ -1042,6 +1055,9 @@ const PhysicalModel::Bound::Bound* Parser::strToBoundType(std::string str) {
 
 Geometry::Element::Group<Geometry::Nod> Parser::readCoordIdAsNodes(
         Geometry::Mesh::Geometric& mesh, const json& j) {
+    if (!j.is_array()) {
+        throw std::logic_error("Coordinate ids are not given as a list");
+    }
     std::vector<Geometry::ElemId> nodeIds;
     for (auto it = j.begin(); it != j.end(); ++it) {
         Geometry::CoordId coordId( it->get<int>() );
diff --git a/src/parser/json/Parser.h b/src/parser/json/Parser.h
index b1f8423..d3d333a 100755
--- a/src/parser/json/Parser.h
+++ b/src/parser/json/Parser.h
@@ -71,6 +71,7 @@ private:
     static Geometry::Mesh::Geometric* readGeometricMesh(
             const PhysicalModel::Group<>&, const json&);
     static bool hasMesh(const json&);
+    static const json& getList(const json&, const std::string& label);
 	static void readConnectorOnPoint(
 			PMGroup& pMG,
 			Geometry::Mesh::Geometric& mesh, 
@@ -153,6 +154,9 @@ private:
 template<typename T>
 Geometry::Element::Group<T> readElemIdsAsGroupOf(
 		Geometry::Mesh::Geometric& mesh, const json& j) {
+	if (!j.is_array()) {
+		throw std::logic_error("Element ids are not given as a list");
+	}
 	Geometry::Element::Group<T> geometricElements;
 	for (auto it = j.begin(); it != j.end(); ++it) {
 		Geometry::ElemR* elem =
@@ -172,6 +176,9 @@ Geometry::Element::Group<Geometry::ElemR> readElemStrAs(
         const Geometry::Layer::Group<>& lG,
         const Geometry::CoordR3Group& cG,
         const json& e) {
+    if (!e.is_array()) {
+        throw std::logic_error("Elements are not given as a list");
+    }
     Geometry::Element::Group<Geometry::ElemR> res;
 
     for (json::const_iterator it = e.begin(); it != e.end(); ++it) {
-- 
2.43.0


From 481a521b857ce4699c70111fde9fe270c3e18915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 26/62] fix: a JSON value whose allocation fails does not claim
 content it does not have

---
 external/json/json.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/external/json/json.hpp b/external/json/json.hpp
index 3dcb834..f6b7af6 100755
--- a/external/json/json.hpp
+++ b/external/json/json.hpp
@@ -3278,8 +3278,8 @@ class parser
                     if (not callback or keep)
                     {
                         // explicitly set result to object to cope with {}
-                        result.m_type = value_t::object;
                         result.m_value = value_t::object;
+                        result.m_type = value_t::object;
                     }
                 }
 
@@ -3382,8 +3382,8 @@ class parser
                     if (not callback or keep)
                     {
                         // explicitly set result to array to cope with []
-                        result.m_type = value_t::array;
                         result.m_value = value_t::array;
+                        result.m_type = value_t::array;
                     }
                 }
 
@@ -3452,8 +3452,8 @@ class parser
 
             case token_type::value_string:
             {
-                result.m_type = value_t::string;
                 result.m_value = m_lexer.move_string();
+                result.m_type = value_t::string;
                 break;
             }
 
-- 
2.43.0


From 19d13ccb0db90c905e7c65b6fb8d28924321fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 27/62] fix: solver settings that run out of memory are
 reported

---
 src/parser/json/Parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 3144363..2be2adc 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -125,6 +125,7 @@ Solver::Settings Parser::readSolverSettings(const json& j) {
         } else {
             Solver::Settings aux;
             std::stringstream value;
+            value.exceptions(std::ios_base::failbit | std::ios_base::badbit);
             if (it->type() == json::value_t::string) {
                 value << it->get<std::string>();
             } else if (it->type() == json::value_t::boolean) {
-- 
2.43.0


From d278a32451cc4e6a896256961951c261bc3526d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:08 +0000
Subject: [PATCH 28/62] fix: mesh connectivity answers do not depend on
 addresses, lost neighbours or the original of a copy

---
 src/core/geometry/graph/Connectivities.cpp | 55 ++++++++++++++++++++--
 src/core/geometry/graph/Connectivities.h   |  6 +++
 src/core/geometry/graph/Element.hpp        |  8 +++-
 src/core/geometry/graph/Graph.h            |  2 +-
 src/core/geometry/graph/Graph.hpp          |  9 ----
 src/core/geometry/graph/Vertices.hpp       |  4 +-
 6 files changed, 67 insertions(+), 17 deletions(-)

diff --git a/src/core/geometry/graph/Connectivities.cpp b/src/core/geometry/graph/Connectivities.cpp
index faaaef1..1848d44 100755
--- a/src/core/geometry/graph/Connectivities.cpp
+++ b/src/core/geometry/graph/Connectivities.cpp
@@ -41,6 +41,26 @@ Connectivities::~Connectivities() {
 Connectivities::Connectivities(const Group::Group<const ElemR>& eG) {
     // Generates graph.
     graph_.init(eG);
+    buildIndex_();
+}
+
+Connectivities::Connectivities(const Connectivities& rhs)
+:   graph_(rhs.graph_) {
+    // The index has to point to the elements of the copied graph.
+    buildIndex_();
+}
+
+Connectivities& Connectivities::operator=(const Connectivities& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    graph_ = rhs.graph_;
+    buildIndex_();
+    return *this;
+}
+
+void Connectivities::buildIndex_() {
+    index_.clear();
     for (std::size_t i = 0; i < graph_.numElems(); i++) {
         GraphElem* graphElem = graph_.elem(i);
         ElemId id = graphElem->elem()->getId();
@@ -48,9 +68,25 @@ Connectivities::Connectivities(const Group::Group<const ElemR>& eG) {
     }
 }
 
+const Connectivities::GraphElem* Connectivities::find_(
+        const ElemR* elem) const {
+    if (elem == nullptr) {
+        return nullptr;
+    }
+    std::map<ElemId, const GraphElem*>::const_iterator it =
+        index_.find(elem->getId());
+    if (it == index_.end()) {
+        return nullptr;
+    }
+    return it->second;
+}
+
 Face Connectivities::getNeighFace(const Face& face) const {
     const ElemR* elem = face.first;
-    const GraphElem* local = index_.find(elem->getId())->second;
+    const GraphElem* local = find_(elem);
+    if (local == nullptr) {
+        return Face(nullptr, 0);
+    }
     std::vector<const CoordR3*> localSideV =
         elem->getSideCoordinates(face.second);
 
@@ -59,9 +95,12 @@ Face Connectivities::getNeighFace(const Face& face) const {
 
 const SurfR* Connectivities::getNeighSurf(const Face& face) const {
     const ElemR* elem = face.first;
+    const GraphElem* local = find_(elem);
+    if (local == nullptr) {
+        return nullptr;
+    }
     std::vector<const CoordR3*> localSideV =
         elem->getSideCoordinates(face.second);
-    const GraphElem* local = index_.find(elem->getId())->second;
 
     for (std::size_t i = 0; i < local->numNeighbors(); i++) {
         const ElemR* neigh = local->getNeighbor(i)->elem();
@@ -77,11 +116,19 @@ const SurfR* Connectivities::getNeighSurf(const Face& face) const {
 }
 
 Face Connectivities::getInnerFace(const SurfR* surf) const {
-    const GraphElem* local = index_.find(surf->getId())->second;
+    const GraphElem* local = find_(surf);
+    if (local == nullptr) {
+        return Face(nullptr, 0);
+    }
     std::vector<const CoordR3*> localV = local->elem()->getCoordinates();
     Face face = getMatchingFace_(local, localV);
+    if (face.first == nullptr) {
+        return face;
+    }
+    // Both normals come from the same nodes, possibly in other order, so they
+    // are either equal or opposite save for rounding errors.
     Math::CVecR3 faceNormal = face.first->getSideNormal(face.second);
-    if ((surf->getNormal() == faceNormal) || isDomainBoundary(face)) {
+    if ((surf->getNormal().dot(faceNormal) > 0.0) || isDomainBoundary(face)) {
         return face;
     } else {
         return getNeighFace(face);
diff --git a/src/core/geometry/graph/Connectivities.h b/src/core/geometry/graph/Connectivities.h
index 74133b5..5ba2071 100755
--- a/src/core/geometry/graph/Connectivities.h
+++ b/src/core/geometry/graph/Connectivities.h
@@ -38,8 +38,11 @@ public:
 
     Connectivities();
     Connectivities(const Group::Group<const ElemR>& eG);
+    Connectivities(const Connectivities& rhs);
     virtual ~Connectivities();
 
+    Connectivities& operator=(const Connectivities& rhs);
+
     std::size_t size() const;
 
     // Returns face of volume matching given face.
@@ -61,6 +64,9 @@ private:
     Vertices<ElemR,CoordR3> graph_;
     std::map<ElemId, const GraphElem*> index_;
 
+    void buildIndex_();
+    const GraphElem* find_(const ElemR* elem) const;
+
     Face getMatchingFace_(
             const GraphElem* local,
             const std::vector<const CoordR3*> localSideV) const;
diff --git a/src/core/geometry/graph/Element.hpp b/src/core/geometry/graph/Element.hpp
index 6ba45b6..b2021c2 100755
--- a/src/core/geometry/graph/Element.hpp
+++ b/src/core/geometry/graph/Element.hpp
@@ -84,13 +84,17 @@ void Element<ELEM,BOUND>::constructNeighbors() {
             }
         }
     }
+    // Neighbors are kept in order of appearance, which depends on the mesh
+    // only and not on the addresses of the elements.
+    neighbors_.clear();
     std::set<GraphElem*> neighbors;
     for (std::size_t i = 0; i < boundNeighbors_.size(); i++) {
         for (std::size_t j = 0; j < boundNeighbors_[i].size(); j++) {
-            neighbors.insert(boundNeighbors_[i][j]);
+            if (neighbors.insert(boundNeighbors_[i][j]).second) {
+                neighbors_.push_back(boundNeighbors_[i][j]);
+            }
         }
     }
-    neighbors_ = std::vector<GraphElem*>(neighbors.begin(), neighbors.end());
 }
 
 template<class ELEM, class BOUND>
diff --git a/src/core/geometry/graph/Graph.h b/src/core/geometry/graph/Graph.h
index eddf1a7..1909c89 100755
--- a/src/core/geometry/graph/Graph.h
+++ b/src/core/geometry/graph/Graph.h
@@ -46,7 +46,7 @@ public:
 
     virtual Graph& init(const Group::Group<const Elem>& elems) = 0;
 
-    //Graph& operator=(const Graph&);
+    Graph& operator=(const Graph&) = delete;
 
     std::size_t numElems () const { return elems_.size();  }
     std::size_t numBounds() const { return bounds_.size(); }
diff --git a/src/core/geometry/graph/Graph.hpp b/src/core/geometry/graph/Graph.hpp
index 3ec07d1..35c05c7 100755
--- a/src/core/geometry/graph/Graph.hpp
+++ b/src/core/geometry/graph/Graph.hpp
@@ -47,15 +47,6 @@ Graph<ELEM,BOUND>::~Graph() {
     }
 }
 
-//template<class ELEM, class BOUND>
-//Graph<ELEM,BOUND>& Graph<ELEM,BOUND>::operator=(const Graph& rhs) {
-//    if (this == &rhs) {
-//        return *this;
-//    }
-//    cloneInfo(rhs);
-//    return *this;
-//}
-
 template<class ELEM, class BOUND>
 void Graph<ELEM,BOUND>::printInfo() const {
     std::cout << "--- Graph Info ---" << std::endl;
diff --git a/src/core/geometry/graph/Vertices.hpp b/src/core/geometry/graph/Vertices.hpp
index 7f6647d..2cdf94d 100755
--- a/src/core/geometry/graph/Vertices.hpp
+++ b/src/core/geometry/graph/Vertices.hpp
@@ -81,7 +81,9 @@ Vertices<ELEM,BOUND>& Vertices<ELEM,BOUND>::operator=(
     if (this == &rhs) {
         return *this;
     }
-    Graph<ELEM,BOUND>::operator=(rhs);
+    Vertices<Elem,Bound> copied(rhs);
+    this->elems_.swap(copied.elems_);
+    this->bounds_.swap(copied.bounds_);
     return *this;
 }
 
-- 
2.43.0


From 2e50eb403c9c7d772f5334bc9833396deb075ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:24 +0000
Subject: [PATCH 29/62] fix: wires whose ends both point away are found from an
 end

---
 src/core/util/wire/Group.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/core/util/wire/Group.hpp b/src/core/util/wire/Group.hpp
index 9364b81..3bf6e5c 100755
--- a/src/core/util/wire/Group.hpp
+++ b/src/core/util/wire/Group.hpp
@@ -240,15 +240,18 @@ std::vector<std::vector<const Geometry::Element::Line<T>*>>
     std::set<Geometry::ElemId> visLines;
     const typename Graph::GraphElem *prevSegment, *nextSegment;
     Geometry::ElemId prvNodeId;
-    for (std::size_t n = 1; n < 3; n++) {
+    for (std::size_t pass = 0; pass < 3; pass++) {
         // First we look for coordinates with only one incident line (n == 1)
-        // that has not been visited. After (n == 2) we look for the circular
-        // wires.
+        // that has not been visited, among the first coordinates of the lines
+        // and then among the last ones. After (n == 2) we look for the
+        // circular wires.
+        const std::size_t n = (pass < 2) ? 1 : 2;
+        const std::size_t end = (pass == 1) ? 1 : 0;
         for (std::size_t i = 0; i < graph.numElems(); i++) {
-            if ((graph.elem(i)->getBound(0)->numBounds() == n) &&
+            if ((graph.elem(i)->getBound(end)->numBounds() == n) &&
                 (visLines.count(graph.elem(i)->elem()->getId()) == 0)) {
-                // We enter here when we find an unvisited line whose first
-                // coordinate has a number n of incident lines
+                // We enter here when we find an unvisited line with a
+                // coordinate that has a number n of incident lines
                 std::vector<const Geometry::Element::Line<T>*> wireLines;
                 nextSegment = graph.elem(i);
                 // We search every line that make up the wire from the line
-- 
2.43.0


From 9e6e8880b2ebabe8f0122d7fdca6fb06137f6eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:35 +0000
Subject: [PATCH 30/62] fix: paths are relative only to folders they begin with

---
 src/core/filesystem/Project.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 42f19c5..79fa87d 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -322,11 +322,10 @@ Project Project::relativeTo(const Project& rhs) const {
     if (name + "/" == rhsFolder) {
         return Project();
     }
-    std::size_t pos = name.find(rhsFolder);
-    if (pos == std::string::npos) {
+    if (name.compare(0, rhsFolder.length(), rhsFolder) != 0) {
         return *this;
     }
-    std::string res = name.substr(pos + rhsFolder.length(), name.length());
+    std::string res = name.substr(rhsFolder.length(), name.length());
     return Project(res);
 }
 
-- 
2.43.0


From 4da77462c961f8b83f10c940b9a271724e840431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 31/62] fix: settings keep their members in order, values
 exact, and survive failures and parts of themselves

---
 src/core/argument/Object.h       | 142 +++++++++++++++++--------------
 src/core/argument/Object.hpp     |  17 ++--
 src/core/argument/StringParser.h |  41 +++++++++
 3 files changed, 126 insertions(+), 74 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 826fde3..0f1c501 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -27,6 +27,7 @@
 #include <list>
 #include <map>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <tuple>
 #include <type_traits>
@@ -86,25 +87,30 @@ public:
     Object() {
         clear_();
     }
-    Object(const Object& rhs) {
-        copy_(rhs);
+    Object(const Object& rhs)
+    :   type_(rhs.type_),
+        objMembers_(rhs.objMembers_),
+        objName_(rhs.objName_),
+        nameMembers_(rhs.nameMembers_),
+        strValue_(rhs.strValue_) {
     }
     Object(Object&& rhs) {
-        move_(std::move(rhs));
+        clear_();
+        swap_(rhs);
     }
     virtual ~Object() {
         clear_();
     }
 
     Object& operator =(const Object& rhs) {
-        if (this == &rhs) {
-            return *this;
-        }
-        copy_(rhs);
+        //rhs may be part of this object.
+        Object aux(rhs);
+        swap_(aux);
         return *this;
     }
     Object& operator =(Object&& rhs) {
-        move_(std::move(rhs));
+        Object aux(std::move(rhs));
+        swap_(aux);
         return *this;
     }
     template<typename... T>
@@ -178,11 +184,8 @@ public:
     bool     isObject() const { return  isType(Type::Dictionary); }
     Object& setObject()       { return setType(Type::Dictionary); }
     Object&       operator ()(const std::string& name) {
-        setObject();
-        if (nameMembers_.count(name) == 0) {
-            nameMembers_[name] = objMembers_.size();
-            objMembers_.push_back(Object());
-            objName_   .push_back(name);
+        if (!isObject() || (nameMembers_.count(name) == 0)) {
+            addMember_(name, Object());
         }
         return objMembers_.at(nameMembers_.at(name));
 
@@ -191,30 +194,28 @@ public:
         return objMembers_.at(nameMembers_.at(name));
     }
     Object&   addMember(const std::string& name, const Object& val) {
-        setObject();
-        if (nameMembers_.count(name) == 0) {
-            nameMembers_[name] = objMembers_.size();
-            objMembers_.push_back(Object());
-            objName_   .push_back(name);
-        }
-        objMembers_.at(nameMembers_.at(name)) = val;
-        return *this;
+        return addMember(name, Object(val));
     }
     Object&   addMember(const std::string& name, Object&& val) {
-        setObject();
-        if (nameMembers_.count(name) == 0) {
-            nameMembers_[name] = objMembers_.size();
-            objMembers_.push_back(Object());
-            objName_   .push_back(name);
+        if (!isObject() || (nameMembers_.count(name) == 0)) {
+            addMember_(name, std::move(val));
+        } else {
+            objMembers_.at(nameMembers_.at(name)) = std::move(val);
         }
-        objMembers_.at(nameMembers_.at(name)) = std::move(val);
         return *this;
     }
     Object& eraseMember(const std::string& name) {
         if (existsName(name)) {
-            objMembers_ .erase(objMembers_.begin() + nameMembers_.at(name));
-            objName_    .erase(objName_   .begin() + nameMembers_.at(name));
+            const std::size_t pos = nameMembers_.at(name);
             nameMembers_.erase(name);
+            objMembers_ .erase(objMembers_.begin() + pos);
+            objName_    .erase(objName_   .begin() + pos);
+            for (std::map<std::string, std::size_t>::iterator
+                 it = nameMembers_.begin(); it != nameMembers_.end(); ++it) {
+                if (it->second > pos) {
+                    it->second--;
+                }
+            }
         }
         return *this;
     }
@@ -239,17 +240,24 @@ public:
         return objMembers_.at(i);
     }
     Object&   addValue(const Object& val) {
-        setArray();
-        objMembers_.push_back(val);
-        return *this;
+        return addValue(Object(val));
     }
     Object&   addValue(Object&& val) {
-        setArray();
-        objMembers_.push_back(std::move(val));
+        if (isArray()) {
+            objMembers_.push_back(std::move(val));
+        } else {
+            Object aux;
+            aux.type_ = Type::Array;
+            aux.objMembers_.push_back(std::move(val));
+            swap_(aux);
+        }
         return *this;
     }
     Object& eraseValue(const std::size_t& i) {
         if (isArray()) {
+            if (i >= objMembers_.size()) {
+                throw std::out_of_range("Object::eraseValue");
+            }
             objMembers_.erase(objMembers_.begin() + i);
         }
         return *this;
@@ -267,13 +275,14 @@ public:
     bool     isInt   () const          { return is <Int >();          }
     bool     isReal  () const          { return is <Real>();          }
     Int     getInt   () const          { 
-		Real val = getReal();
-		if (std::numeric_limits<Int>::max() < std::abs(val)) {
+		Real val = std::floor(getReal());
+		if (!((Real) std::numeric_limits<Int>::min() <= val &&
+		      val <= (Real) std::numeric_limits<Int>::max())) {
 			std::stringstream msg;
 			msg << "Integer value overflow: " << val;
 			throw std::logic_error(msg.str());
 		}
-		return (Int) std::floor(val);
+		return (Int) val;
 	}
     Real    getReal  () const          { return get<Real>();          }
     Object& setInt   (const Int&  val) { return set(val);             }
@@ -293,10 +302,7 @@ public:
         return res;
     }
     Object&     setString(const std::string& str) {
-        clear_();
-        type_ = Type::String;
-        strValue_.push_back(str);
-        return *this;
+        return setGenericString(std::list<std::string>(1, str));
     }
     
     const std::list<std::string>& getGenericString() const {
@@ -304,9 +310,10 @@ public:
     }
     Object&                       setGenericString(
             const std::list<std::string>& str) {
-        clear_();
-        type_ = Type::String;
-        strValue_ = str;
+        Object aux;
+        aux.type_ = Type::String;
+        aux.strValue_ = str;
+        swap_(aux);
         return *this;
     }
 
@@ -333,9 +340,10 @@ public:
                 if (isInt()) {
                     std::cout << getInt();
                 } else {
+                    const Real val = getReal();
                     const std::streamsize precision = std::cout.precision(
                         std::numeric_limits<long double>::max_digits10);
-                    std::cout << getReal();
+                    std::cout << val;
                     std::cout.precision(precision);
                 }
             } else {
@@ -392,28 +400,34 @@ private:
     //String Value
     std::list<std::string> strValue_;
 
-    void copy_(const Object& rhs) {
+    void swap_(Object& rhs) {
         //Value Type
-        type_ = rhs.type_;
+        std::swap(type_, rhs.type_);
         //Object Value
-        objMembers_  = rhs.objMembers_;
-        objName_     = rhs.objName_;
-        nameMembers_ = rhs.nameMembers_;
+        objMembers_ .swap(rhs.objMembers_);
+        objName_    .swap(rhs.objName_);
+        nameMembers_.swap(rhs.nameMembers_);
         //String Value
-        strValue_ = rhs.strValue_;
-    }
-    void move_(Object&& rhs) {
-        //Value Type
-        type_ = rhs.type_;
-        //Object Value
-        objMembers_  = std::move(rhs.objMembers_);
-        objName_     = std::move(rhs.objName_);
-        nameMembers_ = std::move(rhs.nameMembers_);
-        rhs.objName_.clear();
-        rhs.objMembers_.clear();
-        rhs.nameMembers_.clear();
-        //String Value
-        strValue_ = std::move(rhs.strValue_);
+        strValue_.swap(rhs.strValue_);
+    }
+    //Adds a member that does not exist, or leaves the object as it is.
+    void addMember_(const std::string& name, Object&& val) {
+        if (!isObject()) {
+            Object aux;
+            aux.type_ = Type::Dictionary;
+            aux.addMember_(name, std::move(val));
+            swap_(aux);
+            return;
+        }
+        objName_.push_back(name);
+        try {
+            nameMembers_[name] = objMembers_.size();
+            objMembers_.push_back(std::move(val));
+        } catch (...) {
+            objName_.pop_back();
+            nameMembers_.erase(name);
+            throw;
+        }
     }
     void clear_() {
         //Value Type
diff --git a/src/core/argument/Object.hpp b/src/core/argument/Object.hpp
index adfc622..7eab94d 100755
--- a/src/core/argument/Object.hpp
+++ b/src/core/argument/Object.hpp
@@ -36,7 +36,7 @@ bool Object::is() const {
     }
     try {
         StringParser::parse<T...>(strValue_);
-    } catch (...) {
+    } catch (const StringParser::Error::Error&) {
         return false;
     }
     return true;
@@ -74,24 +74,21 @@ std::tuple<T1, T2, T3, T...> Object::get() const {
 
 template<typename ... T>
 Object& Object::set(const T&... params) {
-    clear_();
-    set_(params...);
-    type_ = Type::String;
+    Object aux;
+    aux.set_(params...);
+    aux.type_ = Type::String;
+    swap_(aux);
     return *this;
 }
 
 template<typename T>
 void Object::set_(const T& param) {
-    std::stringstream aux;
-    aux << param;
-    strValue_.push_back(aux.str());
+    strValue_.push_back(StringParser::toString(param));
 }
 
 template<typename T1, typename T2, typename... T>
 void Object::set_(const T1& param1, const T2& param2, const T&... params) {
-    std::stringstream aux;
-    aux << param1;
-    strValue_.push_back(aux.str());
+    set_(param1);
     set_(param2, params...);
 }
 
diff --git a/src/core/argument/StringParser.h b/src/core/argument/StringParser.h
index 1f2ea16..8c24664 100755
--- a/src/core/argument/StringParser.h
+++ b/src/core/argument/StringParser.h
@@ -26,6 +26,7 @@
 #include <cctype>
 #include <exception>
 #include <functional>
+#include <limits>
 #include <list>
 #include <sstream>
 #include <string>
@@ -80,6 +81,7 @@ private:
 template<typename T>
 struct Parser {
     static bool parse(T& out, std::stringstream& input) {
+        input.exceptions(std::ios_base::badbit);
         input >> out;
         return !input.fail();
     }
@@ -226,6 +228,45 @@ struct Details {
     };
 };
 
+//Text from which parse obtains the same value.
+template<typename T>
+std::string toString(const T& value) {
+    std::stringstream aux;
+    aux.exceptions(std::ios_base::badbit);
+    aux << value;
+    return aux.str();
+}
+
+template<typename T>
+std::string realToString(const T& value) {
+    std::string res;
+    for (int digits = std::numeric_limits<T>::digits10;
+         digits <= std::numeric_limits<T>::max_digits10; digits++) {
+        std::stringstream aux;
+        aux.exceptions(std::ios_base::badbit);
+        aux.precision(digits);
+        aux << value;
+        res = aux.str();
+        T read;
+        if ((aux >> read) && (read == value)) {
+            break;
+        }
+    }
+    return res;
+}
+
+inline std::string toString(const float& value) {
+    return realToString(value);
+}
+
+inline std::string toString(const double& value) {
+    return realToString(value);
+}
+
+inline std::string toString(const long double& value) {
+    return realToString(value);
+}
+
 template<typename T>
 T parse(const std::list<std::string>& input) {
     std::tuple<T> res;
-- 
2.43.0


From f89383aba52974052926b2c6589a9f35481ede11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:01 +0000
Subject: [PATCH 32/62] fix: command lines give their settings whatever was
 parsed or refused before

---
 src/core/argument/Group.cpp     | 48 ++++++++++++++++------
 src/core/argument/GroupBase.cpp | 71 ++++++++++++++++++---------------
 src/core/argument/Parser.cpp    | 12 +++---
 src/core/argument/Value.h       |  1 +
 4 files changed, 82 insertions(+), 50 deletions(-)

diff --git a/src/core/argument/Group.cpp b/src/core/argument/Group.cpp
index e38195c..c0cd454 100755
--- a/src/core/argument/Group.cpp
+++ b/src/core/argument/Group.cpp
@@ -21,6 +21,8 @@
 
 #include "Group.h"
 
+#include <memory>
+
 namespace SEMBA {
 namespace Argument {
 
@@ -33,7 +35,10 @@ Group::Group(GroupBase* group,
 }
 
 Group::~Group() {
-
+    for (std::vector<GroupBase*>::const_iterator
+         it = child_.begin(); it != child_.end(); ++it) {
+        delete *it;
+    }
 }
 
 Group& Group::required() {
@@ -82,30 +87,35 @@ const OptionBase& Group::childOption(const std::string& name) const {
 
 Group& Group::addGroup(const std::string& name,
                        const std::string& desc) {
+    child_.reserve(child_.size() + 1);
+    std::unique_ptr<Group> newGroup(new Group(this, name, desc));
     insertName(name);
-    Group* newGroup = new Group(this, name, desc);
 
-    child_.push_back(newGroup);
+    child_.push_back(newGroup.get());
 
-    return *newGroup;
+    return *newGroup.release();
 }
 
 MEGroup& Group::addMutuallyExclusiveGroup() {
     std::stringstream aux;
     aux << "__aux" << ++numMutExc_ << "__";
     std::string name = aux.str();
-    insertName(aux.str());
-    MEGroup* newGroup = new MEGroup(this, name);
+    child_.reserve(child_.size() + 1);
+    std::unique_ptr<MEGroup> newGroup(new MEGroup(this, name));
+    insertName(name);
 
-    child_.push_back(newGroup);
+    child_.push_back(newGroup.get());
 
-    return *newGroup;
+    return *newGroup.release();
 }
 
 void Group::parsePreprocess(Object& out) {
-    out.setObject();
+    GroupBase::parsePreprocess(out);
+    lastPosParsed_ = 0;
     for (std::size_t i = 0; i < child_.size(); i++) {
-        if (!child_[i]->isMutuallyExclusive()) {
+        if (child_[i]->isMutuallyExclusive()) {
+            child_[i]->parsePreprocess(out);
+        } else {
             Object aux;
             aux.setObject();
             child_[i]->parsePreprocess(aux);
@@ -160,8 +170,13 @@ void Group::parsePostprocess(Object& out) {
 }
 
 void Group::addPositionProcess(GroupBase* child, PositionBase* pos) {
-    GroupBase::addPositionProcess(child, pos);
     positions_.push_back(child);
+    try {
+        GroupBase::addPositionProcess(child, pos);
+    } catch (...) {
+        positions_.pop_back();
+        throw;
+    }
 }
 
 void Group::addOptionProcess(GroupBase* child, OptionBase* opt) {
@@ -171,8 +186,15 @@ void Group::addOptionProcess(GroupBase* child, OptionBase* opt) {
     } else {
         name = opt->getLongIdentifier();
     }
-    GroupBase::addOptionProcess(child, opt);
-    options_[name] = child;
+    const bool added = options_.insert(std::make_pair(name, child)).second;
+    try {
+        GroupBase::addOptionProcess(child, opt);
+    } catch (...) {
+        if (added) {
+            options_.erase(name);
+        }
+        throw;
+    }
 }
 
 } /* namespace Argument */
diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index a88d337..a06c3dd 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -151,6 +151,11 @@ std::vector<std::string> GroupBase::possibleOptions(const std::string& id,
 
 void GroupBase::parsePreprocess(Object& out) {
     out.setObject();
+    lastPosParsed_ = 0;
+    for (std::map<std::string, bool>::iterator
+         it = optionParsed_.begin(); it != optionParsed_.end(); ++it) {
+        it->second = false;
+    }
 }
 
 void GroupBase::parsePosition(Object& out,
@@ -196,7 +201,7 @@ void GroupBase::parsePostprocess(Object& out) {
             throw Error::Group::Required(argsAll);
         }
     } else {
-        for (std::size_t i = 0; i < positions_.size(); i++) {
+        for (std::size_t i = lastPosParsed_; i < positions_.size(); i++) {
             std::string optName = positions_[i]->getName();
             Object aux;
             positions_[i]->notParsed(aux);
@@ -245,24 +250,26 @@ OptionBase& GroupBase::addOption(OptionBase* arg) {
 }
 
 void GroupBase::addPositionProcess(GroupBase* child, PositionBase* pos) {
+    bool nameAdded = false;
+    bool posAdded  = false;
     try {
-        if (child == nullptr) {
+        if ((child == nullptr) || child->isMutuallyExclusive()) {
             insertName(pos->getName());
+            nameAdded = true;
+        }
+        if (child == nullptr) {
             positions_.push_back(pos);
-        } else if (child->isMutuallyExclusive()) {
-            insertName(pos->getName());
+            posAdded = true;
         }
         if (parent_ != nullptr) {
             parent_->addPositionProcess(this, pos);
         }
     } catch (...) {
-        if (names_.count(pos->getName()) != 0) {
+        if (nameAdded) {
             names_.erase(pos->getName());
         }
-        if ((child == nullptr) && !positions_.empty()) {
-            if (positions_.back() == pos) {
-                positions_.pop_back();
-            }
+        if (posAdded) {
+            positions_.pop_back();
         }
         throw;
     }
@@ -275,50 +282,50 @@ void GroupBase::addOptionProcess(GroupBase* child, OptionBase* opt) {
     } else {
         name = opt->getLongIdentifier();
     }
+    //Only what is added here is taken back when something fails.
+    bool shortAdded = false;
+    bool longAdded  = false;
+    bool nameAdded  = false;
+    bool optAdded   = false;
     try {
         if (opt->hasShortIdentifier()) {
             insertShortOpt(opt->getShortIdentifier(), name);
+            shortAdded = true;
         }
         if (opt->hasLongIdentifier()) {
             insertLongOpt(opt->getLongIdentifier(), name);
+            longAdded = true;
         }
-        if (child == nullptr) {
+        if ((child == nullptr) || child->isMutuallyExclusive()) {
             insertName(opt->getName());
-            if (optionName_.count(name) == 0) {
-                options_.push_back(opt);
-                optionName_[name] = opt;
-                optionParsed_[name] = false;
-            } else {
+            nameAdded = true;
+        }
+        if (child == nullptr) {
+            if (optionName_.count(name) != 0) {
                 throw Error::Group::Repeated(name);
             }
-        } else if (child->isMutuallyExclusive()) {
-            insertName(opt->getName());
+            options_.push_back(opt);
+            optAdded = true;
+            optionName_[name] = opt;
+            optionParsed_[name] = false;
         }
         if (parent_ != nullptr) {
             parent_->addOptionProcess(this, opt);
         }
     } catch (...) {
-        if (names_.count(opt->getName()) != 0) {
+        if (nameAdded) {
             names_.erase(opt->getName());
         }
-        if (opt->hasShortIdentifier() &&
-            (shortOpts_.count(opt->getShortIdentifier()))) {
+        if (shortAdded) {
             shortOpts_.erase(opt->getShortIdentifier());
         }
-        if (opt->hasLongIdentifier() &&
-            (longOpts_.count(opt->getLongIdentifier()))) {
+        if (longAdded) {
             longOpts_.erase(opt->getLongIdentifier());
         }
-        if ((child == nullptr) && !options_.empty()) {
-            if (options_.back() == opt) {
-                options_.pop_back();
-                if (optionName_.count(name) != 0) {
-                    optionName_.erase(name);
-                }
-                if (optionParsed_.count(name) != 0) {
-                    optionParsed_.erase(name);
-                }
-            }
+        if (optAdded) {
+            options_.pop_back();
+            optionName_.erase(name);
+            optionParsed_.erase(name);
         }
         throw;
     }
diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 1b1177d..31dd8ba 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -47,7 +47,7 @@ Parser& Parser::usage(const std::string& usage) {
 }
 
 Parser& Parser::description(const std::string& desc) {
-    description(desc);
+    Group::description(desc);
     return *this;
 }
 
@@ -222,7 +222,7 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
         } else if (getArgType_(*it) == ArgType::LongOpt) {
             std::size_t posEq = it->find("=");
             if (posEq != std::string::npos) {
-                arg.first  = it->substr(2, posEq);
+                arg.first  = it->substr(2, posEq - 2);
                 arg.second.clear();
                 if (!it->substr(posEq+1).empty()) {
                     arg.second.push_back(it->substr(posEq+1));
@@ -355,6 +355,8 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
         }
         positions = rem;
     }
+    //Values that no position has taken.
+    rem = positions;
     res.second.clear();
     for (std::size_t i = 0; i < unresolvedOptions.size(); i++) {
         res.second.insert(res.second.end(),
@@ -368,9 +370,9 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
         }
     }
     for (std::size_t i = 0; i < rem.size(); i++) {
-        input_.insert(input_.end(),
-                      rem[i].begin(),
-                      rem[i].end());
+        res.second.insert(res.second.end(),
+                          rem[i].begin(),
+                          rem[i].end());
     }
     try {
         parsePostprocess(res.first);
diff --git a/src/core/argument/Value.h b/src/core/argument/Value.h
index 4b58b83..27231aa 100755
--- a/src/core/argument/Value.h
+++ b/src/core/argument/Value.h
@@ -67,6 +67,7 @@ public:
             }
         }
         aux << ")";
+        str_ = aux.str();
     }
     virtual ~NotChoices() throw() {}
 
-- 
2.43.0


From e396285166dca80dd81b3fb96bb575db1fd02480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:12 +0000
Subject: [PATCH 33/62] fix: options refuse settings as a whole and start with
 a defined snap

---
 src/mesher/Options.cpp | 7 +++++++
 src/mesher/Options.h   | 2 ++
 src/solver/Options.cpp | 6 ++++++
 src/solver/Options.h   | 7 +++++++
 4 files changed, 22 insertions(+)

diff --git a/src/mesher/Options.cpp b/src/mesher/Options.cpp
index aec0797..c78cd2f 100755
--- a/src/mesher/Options.cpp
+++ b/src/mesher/Options.cpp
@@ -34,6 +34,7 @@ namespace Mesher {
 Options::Options() {
     mesher_ = Mesher::DMesher;
     mode_ = Mode::structured;
+    snap_ = false;
     forbiddenLength_ = 1.0;
     subgridPoints_ = 0;
     scalingFactor_ = 1.0;
@@ -163,6 +164,12 @@ void Options::addArguments(Argument::Group& args) const {
 }
 
 void Options::set(const Solver::Settings& opts) {
+    Options options(*this);
+    options.set_(opts);
+    *this = std::move(options);
+}
+
+void Options::set_(const Solver::Settings& opts) {
     if (opts.existsName(          "contourRefinement")) {
         setContourRefinement(opts("contourRefinement").getBool());
     }
diff --git a/src/mesher/Options.h b/src/mesher/Options.h
index bd05c1f..14768ef 100755
--- a/src/mesher/Options.h
+++ b/src/mesher/Options.h
@@ -138,6 +138,8 @@ private:
     bool slanted_;
     Math::Real slantedThreshold_;
 
+    void set_(const Solver::Settings& opts);
+
     static Mesher strToMesher(std::string);
     static Mode strToMesherMode(std::string);
     static Math::CVecR3 strToCVecR3(const std::string& str);
diff --git a/src/solver/Options.cpp b/src/solver/Options.cpp
index cb0eec1..364b8f2 100755
--- a/src/solver/Options.cpp
+++ b/src/solver/Options.cpp
@@ -44,6 +44,12 @@ void Options::addArguments(Argument::Group& args) const {
 }
 
 void Options::set(const Settings& opts) {
+    Options options(*this);
+    options.set_(opts);
+    *this = std::move(options);
+}
+
+void Options::set_(const Settings& opts) {
     if (opts.existsName(      "runSimulation")) {
         setRunSimulation(opts("runSimulation").getBool());
     }
diff --git a/src/solver/Options.h b/src/solver/Options.h
index a90e3a3..9cbd443 100755
--- a/src/solver/Options.h
+++ b/src/solver/Options.h
@@ -42,8 +42,13 @@ public:
         ugrfdtd, cudg3d, none
     };
     Options();
+    Options(const Options&) = default;
+    Options(Options&&) = default;
     virtual ~Options();
 
+    Options& operator=(const Options&) = default;
+    Options& operator=(Options&&) = default;
+
     virtual void addArguments(Argument::Group& args) const;
     virtual void set(const Settings& args);
 
@@ -93,6 +98,8 @@ private:
     bool resumeSimulation_;
     Math::Real flush_;
     std::string additionalArguments_;
+
+    void set_(const Settings& opts);
 };
 
 }
-- 
2.43.0


From dc7bbae1798aa73aae957965569a2f1a6a7e9e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 34/62] fix: paths are run as they are, and files and folders
 that can not be opened or entered are reported

---
 src/core/filesystem/Project.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 79fa87d..0fbbed3 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -89,7 +89,9 @@ void Project::changeDir() const {
 #ifdef _WIN32
     _chdir(this->c_str());
 #else
-    chdir(this->c_str());
+    if (chdir(this->c_str()) != 0) {
+        throw std::ios_base::failure("Can not change to folder " + *this);
+    }
 #endif
 }
 
@@ -239,6 +241,9 @@ void Project::openFile_(const std::string& fileName,
     } catch(const std::exception&) {
         throw std::ios_base::failure(fileName + std::string(" not exists"));
     }
+    if (!file) {
+        throw std::ios_base::failure("Can not open file " + fileName);
+    }
 }
 
 std::string Project::removeExtension_(const std::string& fName) const {
@@ -351,14 +356,32 @@ void Project::openAsInput(std::ifstream& file) const {
         throw std::ios_base::failure(std::string("File can't be opened: ") +
                                      *this);
     }
+    if (!file) {
+        throw std::ios_base::failure(std::string("File can't be opened: ") +
+                                     *this);
+    }
 }
 
 void Project::exec(const std::string arguments) const {
-    if (!canExecute()) {
+    if (!canExecute() || isFolder()) {
+        throw std::ios_base::failure("Can not execute " + *this);
+    }
+    std::string cmd = getFilename();
+#ifndef _WIN32
+    // The shell must take the path as it is and not look for it elsewhere.
+    for (std::size_t i = cmd.find('\''); i != std::string::npos;
+         i = cmd.find('\'', i + 4)) {
+        cmd.replace(i, 1, "'\\''");
+    }
+    cmd = "'" + cmd + "'";
+    if (find('/') == std::string::npos) {
+        cmd = "./" + cmd;
+    }
+#endif
+    cmd += " " + arguments;
+    if (system(cmd.c_str()) == -1) {
         throw std::ios_base::failure("Can not execute " + *this);
     }
-    std::string cmd = getFilename() + " " + arguments;
-    system(cmd.c_str());
 }
 
 std::string Project::getExtension() const {
-- 
2.43.0


From 78c72ea95587522680fb62a353de02ab65774458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 35/62] fix: replacing a member of a collection keeps its ids
 and positions in step

---
 src/core/geometry/coordinate/Group.h   |  2 ++
 src/core/geometry/coordinate/Group.hpp | 14 ++++++++++++++
 src/core/group/Identifiable.h          |  2 ++
 src/core/group/Identifiable.hpp        | 20 ++++++++++++++++++++
 4 files changed, 38 insertions(+)

diff --git a/src/core/geometry/coordinate/Group.h b/src/core/geometry/coordinate/Group.h
index 719fddd..599cc1e 100755
--- a/src/core/geometry/coordinate/Group.h
+++ b/src/core/geometry/coordinate/Group.h
@@ -81,6 +81,8 @@ public:
 	SEMBA::Group::Group<const C> getAllInPos(const Math::CVecI3& pos) const;
 
 
+    void set(const std::size_t i, C*);
+
     using SEMBA::Group::Identifiable<C,Id>::add;
     SEMBA::Group::Group<C> add(SEMBA::Group::Group<C>&);
     SEMBA::Group::Group<C> add(SEMBA::Group::Group<C>&&);
diff --git a/src/core/geometry/coordinate/Group.hpp b/src/core/geometry/coordinate/Group.hpp
index 7a06733..9627da3 100755
--- a/src/core/geometry/coordinate/Group.hpp
+++ b/src/core/geometry/coordinate/Group.hpp
@@ -162,6 +162,20 @@ SEMBA::Group::Group<const C> Group<C>::getAllInPos(
 	return res;
 }
 
+template<typename C>
+void Group<C>::set(const std::size_t i, C* elem) {
+    SEMBA::Group::Group<C> newCoord(elem);
+    SEMBA::Group::Group<C> oldCoord(this->get(i));
+    postprocess_(newCoord);
+    try {
+        SEMBA::Group::Identifiable<C,Id>::set(i, elem);
+    } catch (...) {
+        unindex_(newCoord, newCoord.size());
+        throw;
+    }
+    unindex_(oldCoord, oldCoord.size());
+}
+
 template<typename C>
 SEMBA::Group::Group<C> Group<C>::add(SEMBA::Group::Group<C>& rhs) {
     return Group<C>::add(SEMBA::Group::Group<C>(rhs));
diff --git a/src/core/group/Identifiable.h b/src/core/group/Identifiable.h
index 8ba3f86..865b7f6 100755
--- a/src/core/group/Identifiable.h
+++ b/src/core/group/Identifiable.h
@@ -63,6 +63,8 @@ public:
     virtual Identifiable<T,Id>       getId(const std::vector<Id>&);
     virtual Identifiable<const T,Id> getId(const std::vector<Id>&) const;
 
+    virtual void set(const std::size_t i, T*);
+
     using Group<T>::add;
     Group<T> add(Group<T>&);
     Group<T> add(Group<T>&&);
diff --git a/src/core/group/Identifiable.hpp b/src/core/group/Identifiable.hpp
index 96eeeab..db4918f 100755
--- a/src/core/group/Identifiable.hpp
+++ b/src/core/group/Identifiable.hpp
@@ -161,6 +161,26 @@ Identifiable<const T,Id> Identifiable<T,Id>::getId(
     return this->get(getElemsId_(ids));
 }
 
+template<typename T, class Id>
+void Identifiable<T,Id>::set(const std::size_t i, T* elem) {
+    Group<T> owned(elem);
+    const Id oldId = this->get(i)->getId();
+    const Id newId = elem->getId();
+    if (newId != oldId) {
+        if (newId == Id(0)) {
+            throw typename Error::Id::Zero<Id>();
+        }
+        if (!mapId_.insert(std::make_pair(newId, i)).second) {
+            throw typename Error::Id::Duplicated<Id>(newId);
+        }
+        mapId_.erase(oldId);
+        if (newId > lastId_) {
+            lastId_ = newId;
+        }
+    }
+    Group<T>::set(i, elem);
+}
+
 template<typename T, class Id>
 Group<T> Identifiable<T,Id>::add(Group<T>& rhs) {
     return Identifiable<T,Id>::add(Group<T>(rhs));
-- 
2.43.0


From 86a8af34f6d22a7347e85f0d04012ec12cb8e93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:11 +0000
Subject: [PATCH 36/62] fix: assigning a source or a wire with ends copies what
 it owns

---
 src/core/physicalModel/wire/Extremes.cpp | 11 +++++++++++
 src/core/physicalModel/wire/Extremes.h   |  2 ++
 src/core/source/Source.cpp               | 11 +++++++++++
 src/core/source/Source.h                 |  2 ++
 4 files changed, 26 insertions(+)

diff --git a/src/core/physicalModel/wire/Extremes.cpp b/src/core/physicalModel/wire/Extremes.cpp
index ab96df8..cf85b38 100755
--- a/src/core/physicalModel/wire/Extremes.cpp
+++ b/src/core/physicalModel/wire/Extremes.cpp
@@ -63,6 +63,17 @@ Extremes::~Extremes() {
     }
 }
 
+Extremes& Extremes::operator=(const Extremes& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    Extremes aux(rhs);
+    Wire::operator=(rhs);
+    std::swap(extreme_[0], aux.extreme_[0]);
+    std::swap(extreme_[1], aux.extreme_[1]);
+    return *this;
+}
+
 void Extremes::setExtreme(const std::size_t i,
                           const Multiport::Multiport* extreme) {
     if (extreme_[i] != nullptr) {
diff --git a/src/core/physicalModel/wire/Extremes.h b/src/core/physicalModel/wire/Extremes.h
index 26d0b05..84a8f6b 100755
--- a/src/core/physicalModel/wire/Extremes.h
+++ b/src/core/physicalModel/wire/Extremes.h
@@ -38,6 +38,8 @@ public:
     Extremes(const Extremes& rhs);
     virtual ~Extremes();
 
+    Extremes& operator=(const Extremes& rhs);
+
     SEMBA_CLASS_DEFINE_CLONE(Extremes);
 
     const Multiport::Multiport *getExtreme(const std::size_t i) const {
diff --git a/src/core/source/Source.cpp b/src/core/source/Source.cpp
index 56f6cbf..9d5610e 100755
--- a/src/core/source/Source.cpp
+++ b/src/core/source/Source.cpp
@@ -48,6 +48,17 @@ Base::~Base() {
     }
 }
 
+Base& Base::operator=(const Base& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    const Magnitude::Magnitude* orig = magnitude_;
+    magnitude_ = (rhs.magnitude_ == nullptr) ? nullptr :
+                 rhs.magnitude_->cloneTo<Magnitude::Magnitude>();
+    delete orig;
+    return *this;
+}
+
 std::string Base::getMagnitudeFilename() const {
     const Magnitude::Numerical* mag =
             dynamic_cast<const Magnitude::Numerical*>(magnitude_);
diff --git a/src/core/source/Source.h b/src/core/source/Source.h
index 722cca6..68629da 100755
--- a/src/core/source/Source.h
+++ b/src/core/source/Source.h
@@ -46,6 +46,8 @@ public:
     Base(const Base& rhs);
     virtual ~Base();
 
+    Base& operator=(const Base& rhs);
+
     virtual Geometry::Element::Group<const Geometry::Elem> elems() const = 0;
 
     virtual void set(
-- 
2.43.0


From 9b0e0d369dc29104ff2aee68872fc5a4bfe4834f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:13 +0000
Subject: [PATCH 37/62] fix: an end of a wire can be set from the wire itself

---
 src/core/physicalModel/wire/Extremes.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/core/physicalModel/wire/Extremes.cpp b/src/core/physicalModel/wire/Extremes.cpp
index cf85b38..e7c651f 100755
--- a/src/core/physicalModel/wire/Extremes.cpp
+++ b/src/core/physicalModel/wire/Extremes.cpp
@@ -76,13 +76,10 @@ Extremes& Extremes::operator=(const Extremes& rhs) {
 
 void Extremes::setExtreme(const std::size_t i,
                           const Multiport::Multiport* extreme) {
-    if (extreme_[i] != nullptr) {
-        delete extreme_[i];
-    }
-    extreme_[i] = nullptr;
-    if (extreme != nullptr) {
-        extreme_[i] = extreme->cloneTo<Multiport::Multiport>();
-    }
+    const Multiport::Multiport* orig = extreme_[i];
+    extreme_[i] = (extreme == nullptr) ? nullptr :
+                  extreme->cloneTo<Multiport::Multiport>();
+    delete orig;
 }
 
 void Extremes::swapExtremes() {
-- 
2.43.0


From b970988689be3a08169b74227ca82d12f7a98591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 38/62] fix: help texts are filled in, wrapped and lined up,
 and do not depend on an unknown terminal width

---
 src/core/argument/Formatter.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index d9f1009..331bae9 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -228,25 +228,29 @@ std::string Formatter::replaceChoices_(
         res += aux.substr(0, aux.find(CHOICES)) + choicesStr;
         aux  = aux.substr(aux.find(CHOICES) + CHOICES.size());
     }
+    res += aux;
     return res;
 }
 
 void Formatter::printParagraph_(const std::string& str,
                                 const std::size_t& posFirst,
                                 const std::size_t& min) {
-    const std::size_t& max = getConsoleSize_();
-    std::string word;
-    std::stringstream aux(str);
+    static const char* const blanks = " \t\n\v\f\r";
+    const std::size_t max = getConsoleSize_();
     std::size_t pos = posFirst;
     bool first = true;
-    while (aux >> word) {
+    std::size_t beg = str.find_first_not_of(blanks);
+    while (beg != std::string::npos) {
+        const std::size_t end = str.find_first_of(blanks, beg);
+        const std::string word = str.substr(beg, end - beg);
+        beg = str.find_first_not_of(blanks, end);
         std::size_t newPos = pos + word.size();
         if (!first) {
             newPos++;
         }
         if (newPos > max && !first) {
             std::cout << std::endl << std::string(min, ' ') << word;
-            pos = newPos;
+            pos = min + word.size();
         } else {
             if (!first) {
                 std::cout << " ";
@@ -275,7 +279,9 @@ std::size_t Formatter::getConsoleSize_() {
         return size;
     }
     struct winsize w;
-    ioctl(0, TIOCGWINSZ, &w);
+    if ((ioctl(fileno(stdout), TIOCGWINSZ, &w) != 0) || (w.ws_col == 0)) {
+        return size;
+    }
     size = w.ws_col;
 #endif
     return size;
@@ -359,10 +365,10 @@ void Formatter::printArg_(const std::string& arg,
         } else {
             std::cout << std::string(tab-arg.size(),' ');
         }
-        replaceProg_(help);
-        replaceDefault_(help, def);
-        replaceChoices_(help, choices);
-        printParagraph_(help);
+        std::string text = replaceProg_(help);
+        text = replaceDefault_(text, def);
+        text = replaceChoices_(text, choices);
+        printParagraph_(text, tab, tab);
     } else {
         std::cout << std::endl;
     }
-- 
2.43.0


From ababf3b3766c8b6db7dcb0620ca1d8553be5ad0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:51 +0000
Subject: [PATCH 39/62] fix: collections are left as they were when running out
 of memory, and can be added to themselves

---
 src/core/group/Group.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/core/group/Group.hpp b/src/core/group/Group.hpp
index 9421a43..31b4580 100755
--- a/src/core/group/Group.hpp
+++ b/src/core/group/Group.hpp
@@ -116,8 +116,9 @@ Group<T>& Group<T>::operator=(Group& rhs) {
     if (this == &rhs) {
         return *this;
     }
+    std::vector<std::shared_ptr<T>> element(rhs.element_);
     clear();
-    element_ = rhs.element_;
+    element_.swap(element);
     return *this;
 }
 
@@ -239,14 +240,16 @@ Group<T> Group<T>::add(const Group<T2>& rhs) {
 
 template<typename T>
 Group<T> Group<T>::add(Group& rhs) {
-    element_.insert(element_.end(), rhs.element_.begin(), rhs.element_.end());
-    return rhs;
+    Group res(rhs);
+    element_.insert(element_.end(), res.element_.begin(), res.element_.end());
+    return res;
 }
 
 template<typename T>
 Group<T> Group<T>::add(Group&& rhs) {
-    element_.insert(element_.end(), rhs.element_.begin(), rhs.element_.end());
-    return rhs;
+    Group res(rhs);
+    element_.insert(element_.end(), res.element_.begin(), res.element_.end());
+    return res;
 }
 
 template<typename T>
-- 
2.43.0


From 97ceec8f3157e6e84023d5b99dd5b547be61fa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 40/62] fix: sorting rows stays within the matrix, and what can
 not be inverted is refused

---
 src/core/math/matrix/Matrix.hpp | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index dc4d0ab..02b975f 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -22,6 +22,7 @@
 #include <cassert>
 #include <stdexcept>
 #include <numeric>
+#include <sstream>
 
 #include "Matrix.h"
 
@@ -85,10 +86,9 @@ T Matrix<T>::getDeterminant4x4() const {
 template <class T>
 void Matrix<T>::internal_() {
     assert(Matrix<T>::isSquare());
-    std::size_t *pivot = new std::size_t[nRows()];
-    factorizeLU_(pivot);
-    invertFactorized_(pivot);
-    delete [] pivot;
+    std::vector<std::size_t> pivot(nRows());
+    factorizeLU_(pivot.data());
+    invertFactorized_(pivot.data());
 }
 
 template<class T>
@@ -139,11 +139,10 @@ void Matrix<T>::factorizeLU_(std::size_t pivot[]) {
     }
     pivot[n-1] = n-1;
     if (val(n-1,n-1) == (T) 0.0) {
-        std::cout << "ERROR@Matrix<T>::factorizeToArray" << std::endl;
-        std::cout << "  Zero pivot on step " << n-1 << std::endl;
         printInfo();
-        assert(false);
-        exit (EXIT_FAILURE);
+        std::stringstream ss;
+        ss << "Zero pivot on step " << n-1;
+        throw std::out_of_range(ss.str());
     }
 }
 
@@ -156,7 +155,7 @@ void Matrix<T>::invertFactorized_(const std::size_t pivot[]) {
     std::ptrdiff_t nn = n * n;
     std::ptrdiff_t i, j, k;
     T temp;
-    T *b = new T[nn];
+    std::vector<T> b(nn);
     // Compute Inverse(U).
     for (k = 0; k < n; k++) {
         for (i = 0; i < k; i++) {
@@ -195,8 +194,6 @@ void Matrix<T>::invertFactorized_(const std::size_t pivot[]) {
             val(i,j) = (T) b[i+j*n];
         }
     }
-    // Frees memory.
-    delete [] b;
 }
 
 template <class T>
@@ -224,7 +221,10 @@ template <class T>
 void Matrix<T>::sortRows() {
     // Orders array a with nr rows and nc columns. Ordering is performed
     // using column indicated in orCol as reference. In ascending order.
-    sortRows(0, nCols());
+    if (nCols() == 0) {
+        return;
+    }
+    sortRows(0, nCols()-1);
 }
 
 template <class T>
@@ -308,7 +308,9 @@ void Matrix<T>::QSRows_(std::size_t p, std::size_t r,
                         const std::size_t iCol, const std::size_t lCol) {
     if (p < r) {
         std::size_t q = partitionRows_(p, r, iCol, lCol);
-        QSRows_(p, q - 1, iCol, lCol);
+        if (q > p) {
+            QSRows_(p, q - 1, iCol, lCol);
+        }
         QSRows_(q + 1, r, iCol, lCol);
     }
 }
@@ -419,6 +421,9 @@ bool Matrix<T>::isSquare() const {
 
 template <class T>
 bool Matrix<T>::isSymmetric() const {
+    if (!isSquare()) {
+        return false;
+    }
     for (std::size_t i = 0; i < nRows(); i++) {
         for (std::size_t j = 0; j < nRows(); j++) {
             if (val(i,j) != val(j,i)) {
-- 
2.43.0


From c236a4c408a702d740b55ccdf2f0b88e11cb9335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:20 +0000
Subject: [PATCH 41/62] fix: matrices keep their values when running out of
 memory, and reshape, divide, combine and lose repeated rows as declared

---
 src/core/math/matrix/Dynamic.hpp | 87 ++++++++++++++------------------
 1 file changed, 39 insertions(+), 48 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index be8d999..d9036de 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -67,6 +67,7 @@ Dynamic<T>::Dynamic(std::size_t rows, std::size_t cols, T** values) {
    _nRows = rows;
    _nCols = cols;
    assert(values != nullptr);
+   _val = new T[_nRows * _nCols];
    for (std::size_t i = 0; i < _nRows; i++) {
       for (std::size_t j = 0; j < _nCols; j++) {
          val(i,j) = values[i][j];
@@ -86,9 +87,7 @@ Dynamic<T>& Dynamic<T>::operator=(const Dynamic<T>& param) {
    if (this == &param) {
       return *this;
    }
-   _nRows = param._nRows;
-   _nCols = param._nCols;
-   resizeVal(_nRows, _nCols);
+   resizeVal(param._nRows, param._nCols);
    std::size_t nRnC = _nRows * _nCols;
    for (std::size_t i = 0; i < nRnC; i++) {
       _val[i] = param._val[i];
@@ -124,12 +123,13 @@ inline Dynamic<T> Dynamic<T>::sub(
 template <class T>
 inline void Dynamic<T>::resizeVal(const std::size_t rows,
                                   const std::size_t cols) {
-   _nRows = rows;
-   _nCols = cols;
+   T* values = new T[rows*cols];
    if (_val != nullptr) {
       delete [] _val;
    }
-   _val = new T[_nRows*_nCols];
+   _val = values;
+   _nRows = rows;
+   _nCols = cols;
 }
 
 template<class T>
@@ -161,9 +161,10 @@ Dynamic<T>::operator=(const std::vector<T>& param) {
 
 template <class T>
 void Dynamic<T>::copy(const Dynamic<Real>& param) {
-   _nRows = param.nRows();
-   _nCols = param.nCols();
-   resizeVal(nRows(), nCols());
+   if (static_cast<const void*>(this) == &param) {
+      return;
+   }
+   resizeVal(param.nRows(), param.nCols());
    for (std::size_t r = 0; r < _nRows; r++) {
       for (std::size_t c = 0; c < _nCols; c++) {
          val(r,c) = param(r,c);
@@ -192,49 +193,42 @@ Dynamic<T>::copy(
 template<class T>
 Dynamic<T>&
 Dynamic<T>::sortAndRemoveRepeatedRows_omp() {
-   sortRows_omp(0, nCols());
-   removeRepeatedSortedRows();
+   if (nCols() == 0) {
+      return *this;
+   }
+   Dynamic<T> aux(*this);
+   aux.sortRows_omp(0, nCols()-1);
+   aux.removeRepeatedSortedRows();
+   *this = aux;
    return *this;
 }
 
 template<class T>
 void
 Dynamic<T>::sortAndRemoveRepeatedRows() {
-   this->sortRows(0, nCols());
-   removeRepeatedSortedRows();
+   Dynamic<T> aux(*this);
+   aux.sortRows();
+   aux.removeRepeatedSortedRows();
+   *this = aux;
 }
 
 template<class T>
 void
 Dynamic<T>::removeRepeatedSortedRows() {
+   if (nRows() == 0) {
+      return;
+   }
    std::vector<std::vector<T> > aux;
    aux.reserve(nRows());
-   std::size_t nonRepeated = 0;
-   std::size_t nCompared;
-   if (nRows() <= 1 ) {
-      nCompared = 0;
-   } else {
-      nCompared = nRows() - 1;
-   }
-   for (std::size_t i = 0; i < nCompared; i++) {
-      bool areEqual = true;
-      for (std::size_t j = 0; j < nCols(); j++) {
-         areEqual &= (val(i,j) == val(i+1,j));
+   for (std::size_t i = 0; i < nRows(); i++) {
+      bool areEqual = (i != 0);
+      for (std::size_t j = 0; areEqual && (j < nCols()); j++) {
+         areEqual = (val(i-1,j) == val(i,j));
       }
       if (!areEqual) {
-         nonRepeated++;
          aux.push_back(this->cpRowToVector(i));
-         if (i == nRows() - 2) {
-            nonRepeated++;
-            aux.push_back(this->cpRowToVector(i+1));
-         }
-      }
-      if ((i == nRows() - 2) && areEqual) {
-         nonRepeated++;
-         aux.push_back(this->cpRowToVector(i+1));
       }
    }
-   _nRows = nonRepeated;
    copy(aux);
 }
 
@@ -279,7 +273,7 @@ template <class T>
 Dynamic<T>& Dynamic<T>::operator=(const T &param) {
    for (std::size_t i = 0; i < _nRows; i++)
       for (std::size_t j = 0; j < _nCols; j++)
-         _val[i][j] = param;
+         val(i,j) = param;
    return *this;
 }
 
@@ -391,7 +385,7 @@ Dynamic<T> Dynamic<T>::operator/(const T param) const {
    Dynamic<T> res(_nRows, _nCols);
    for (i = 0; i < _nRows; i++)
       for (j = 0; j < _nCols; j++)
-         res._val[i][j] /= param;
+         res(i,j) = val(i,j) / param;
    return res;
 }
 
@@ -424,11 +418,10 @@ Dynamic<T>& Dynamic<T>::operator*=(const T param) {
 
 template <class T>
 Dynamic<T>& Dynamic<T>::operator/=(const T param) {
-   assert(_nRows == param._nRows && _nCols == param._nCols);
    std::size_t i, j;
    for (i = 0; i < _nRows; i++) {
       for (j = 0; j < _nCols; j++) {
-         _val[i][j] /= param;
+         val(i,j) /= param;
       }
    }
    return *this;
@@ -442,7 +435,7 @@ bool Dynamic<T>::operator==(const Dynamic<T>& param) const {
       for (std::size_t i = 0; i < _nRows; i++) {
          for (std::size_t j = 0; j < _nCols; j++) {
             T diff = std::abs(this->operator()(i,j) - param(i,j));
-            res &= diff < std::numeric_limits<T>::epsilon() * 1e2;
+            res &= diff <= std::numeric_limits<T>::epsilon() * 1e2;
          }
       }
       return res;
@@ -472,7 +465,7 @@ Dynamic<T> Dynamic<T>::convolute(const Dynamic<T> &param) const {
    for (j = 1; j <= _nRows + param._nRows - 1; j++) {
       if (j <= _nRows)
          min = j;
-      if (j + 1 - param._nRows >= 1)
+      if (j >= param._nRows)
          max = j + 1 - param._nRows;
       for (i = max; i <= min; i++)
          res(j-1,0) += val(i-1,0) * param(j-i,0);
@@ -507,7 +500,7 @@ void Dynamic<T>::printInfo(std::size_t fr, std::size_t lr,
    std::cout << "Stored values: " << std::endl;
    for (std::size_t i = fr; i <= lr; i++) {
       for (std::size_t j = fc; j < lc; j++)
-          std::cout << _val[i][j] << " ";
+          std::cout << val(i,j) << " ";
       std::cout << std::endl;
    }
 }
@@ -530,7 +523,7 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
       // Performs ordering taking elements from one row at a time.
       for (i = 0; i < rows; i++)
          for (j = 0; j < cols; j++) {
-            res._val[i][j] = _val[k / _nCols][k % _nCols];
+            res(i,j) = val(k / _nCols, k % _nCols);
             k++;
          }
       break;
@@ -538,7 +531,7 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
       // Performs ordering taking elements from one column at a time.
       for (i = 0; i < rows; i++)
          for (j = 0; j < cols; j++) {
-            res._val[i][j] = _val[k % _nRows][k / _nRows];
+            res(i,j) = val(k % _nRows, k / _nRows);
             k++;
          }
       break;
@@ -548,12 +541,12 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
 
 template<class T>
 Dynamic<T> Dynamic<T>::kron(Dynamic<T>& rhs) const {
-   Dynamic<T> res(_nRows + rhs._nRows, _nCols + rhs._nCols);
+   Dynamic<T> res(_nRows * rhs._nRows, _nCols * rhs._nCols);
    for (std::size_t i = 0; i < _nRows; i++) {
       for (std::size_t j = 0; j < rhs._nRows; j++) {
          for (std::size_t k = 0; k < _nCols; k++) {
             for (std::size_t l = 0; l < rhs._nCols; l++) {
-               res(i*_nRows + j, k*_nCols + l) = val(i,k) * rhs(j,l);
+               res(i*rhs._nRows + j, k*rhs._nCols + l) = val(i,k) * rhs(j,l);
             }
          }
       }
@@ -579,9 +572,7 @@ void Dynamic<T>::mergeSortedRows(const Dynamic<T>& a,
    assert(a.nCols() == b.nCols());
    std::size_t m = a.nRows();
    std::size_t n = b.nRows();
-   _nRows = m + n;
-   _nCols = a.nCols();
-   resizeVal(a.nRows() + b.nRows(), a.nCols());
+   resizeVal(m + n, a.nCols());
    std::size_t i = 0, j = 0, k = 0;
    std::size_t vS = lCol - iCol + 1;
    while (i < m && j < n) {
-- 
2.43.0


From 45f2d305367601663928d424e60020c3dd7e2b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 42/62] fix: Grid edits are complete or refused

Replacing the lines of a grid, padding it and assigning it changed some
directions before failing in another; padding a direction without cells
or of no size asserted or computed a meaningless number of cells, adding
no lines read out of range, and grids with no or negative numbers of
cells or steps were made with undefined positions.
---
 src/core/geometry/Grid.hpp | 55 ++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 0ec63d5..e5cf0c0 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -40,6 +40,10 @@ Grid<D>::Grid(const BoxRD& box,
     CVecRD origin = box.getMin();
     for (std::size_t i = 0; i < D; i++) {
         Math::Real boxLength = box.getMax()(i) - box.getMin()(i);
+        if (boxLength < 0.0 || dxyz(i) < 0.0) {
+            throw std::out_of_range(
+                      "Grid lengths and steps must not be negative");
+        }
         std::size_t nCells;
         if (dxyz(i) == (Math::Real) 0.0) {
             nCells = 1;
@@ -63,6 +67,9 @@ Grid<D>::Grid(const BoxRD &boundingBox,
               const CVecID& dims) {
     CVecRD origin = boundingBox.getMin();
     for (std::size_t i = 0; i < D; i++) {
+        if (dims(i) < 1) {
+            throw std::out_of_range("Grid must contain at least one cell");
+        }
         Math::Real step =
                 (boundingBox.getMax()(i) - boundingBox.getMin()(i)) / dims(i);
         std::size_t nCells = dims(i);
@@ -98,24 +105,29 @@ Grid<D>& Grid<D>::operator=(const Grid<D>& rhs) {
     if (this == &rhs) {
         return *this;
     }
+    Grid<D> aux(rhs);
     for (std::size_t i = 0; i < D; i++) {
-        pos_[i] = rhs.pos_[i];
+        pos_[i].swap(aux.pos_[i]);
     }
     return *this;
 }
 
 template<std::size_t D>
 void Grid<D>::setPos(const std::vector<Math::Real> pos[D]) {
+    Grid<D> aux(pos);
     for(std::size_t d = 0; d < D; d++) {
-        if (pos[d].size() == 0) {
+        if (aux.pos_[d].size() == 0) {
             throw std::out_of_range(
                       "Grid positions must contain at least one value");
         }
-        pos_[d] = pos[d];
-        if (pos_[d].size() == 1) {
-            pos_[d].push_back(pos_[d][0]);
+        if (aux.pos_[d].size() == 1) {
+            const Math::Real onlyPos = aux.pos_[d][0];
+            aux.pos_[d].push_back(onlyPos);
         }
     }
+    for(std::size_t d = 0; d < D; d++) {
+        pos_[d].swap(aux.pos_[d]);
+    }
 }
 
 template<std::size_t D>
@@ -124,6 +136,9 @@ void Grid<D>::setAdditionalSteps(
         const Math::Constants::CartesianBound b,
         const std::vector<Math::Real>& step) {
     const std::size_t nCells = step.size();
+    if (nCells == 0) {
+        return;
+    }
     std::vector<Math::Real> newPos(nCells);
     if (b == Math::Constants::U) {
         newPos[0] = pos_[d].back() + step[0];
@@ -602,26 +617,29 @@ void Grid<D>::applyScalingFactor(const Math::Real factor) {
 template<std::size_t D>
 void Grid<D>::enlarge(const std::pair<CVecRD, CVecRD>& pad,
                       const std::pair<CVecRD, CVecRD>& sizes) {
+    Grid<D> aux(*this);
     for (std::size_t d = 0; d < D; d++) {
         for (std::size_t b = 0; b < 2; b++) {
             if (b == Math::Constants::L) {
-                enlargeBound(Math::Constants::CartesianAxis(d),
-                             Math::Constants::CartesianBound(b),
-                             pad.first(d), sizes.first(d));
+                aux.enlargeBound(Math::Constants::CartesianAxis(d),
+                                 Math::Constants::CartesianBound(b),
+                                 pad.first(d), sizes.first(d));
             } else {
-                enlargeBound(Math::Constants::CartesianAxis(d),
-                             Math::Constants::CartesianBound(b),
-                             pad.second(d), sizes.second(d));
+                aux.enlargeBound(Math::Constants::CartesianAxis(d),
+                                 Math::Constants::CartesianBound(b),
+                                 pad.second(d), sizes.second(d));
             }
         }
     }
+    for (std::size_t d = 0; d < D; d++) {
+        pos_[d].swap(aux.pos_[d]);
+    }
 }
 
 template<std::size_t D>
 void Grid<D>::enlargeBound(Math::Constants::CartesianAxis d,
                            Math::Constants::CartesianBound b,
                            Math::Real pad, Math::Real siz) {
-    assert(getNumCells()(d) > 0);
     if (std::abs(siz) > std::abs(pad)) {
         std::cerr << "WARNING @ Grid enlarge bound: "
                 << "std::size_t was larger than padding. Ignoring padding in "
@@ -631,6 +649,9 @@ void Grid<D>::enlargeBound(Math::Constants::CartesianAxis d,
     if (pad == 0.0) {
         return;
     }
+    if (getNumCells()(d) < 1) {
+        throw std::out_of_range("Grid must contain cells to be enlarged");
+    }
     Math::Int boundCell;
     if (b == Math::Constants::L) {
         boundCell = 0;
@@ -638,8 +659,14 @@ void Grid<D>::enlargeBound(Math::Constants::CartesianAxis d,
         boundCell = this->getNumCells()(d) - 1;
     }
     std::vector<Math::Real> newSteps;
-    if (Math::Util::greaterEqual(getStep(d,boundCell), siz) || siz == 0.0) {
-        siz = getStep(d,boundCell);
+    const bool isFlat = (getStep(d,boundCell) == 0.0);
+    if (isFlat && siz == 0.0) {
+        throw std::out_of_range(
+                  "Size of the cells enlarging the grid is not known");
+    }
+    if (isFlat || siz == 0.0 ||
+        Math::Util::greaterEqual(getStep(d,boundCell), siz)) {
+        siz = isFlat ? std::abs(siz) : getStep(d,boundCell);
         // Computes enlargement for a padding with same size.
         Math::Real nCellsFrac = std::abs(pad/siz);
         const Math::Real tol = 0.01;
-- 
2.43.0


From 77c6821db67b5977278f6602e5fb70a3c1ffee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 43/62] fix: Impossible grids are refused

Grid lines out of order, negative steps to add and, in a project, negative
step sizes fitted to the box were accepted and gave a meaningless grid.
---
 src/core/geometry/Grid.hpp | 6 ++++++
 src/parser/json/Parser.cpp | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index e5cf0c0..0562c11 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -83,6 +83,9 @@ Grid<D>::Grid(const BoxRD &boundingBox,
 template<std::size_t D>
 Grid<D>::Grid(const std::vector<Math::Real> pos[D]) {
     for(std::size_t d = 0; d < D; d++) {
+        if (!std::is_sorted(pos[d].begin(), pos[d].end())) {
+            throw std::out_of_range("Grid positions must be in order");
+        }
         pos_[d] = pos[d];
     }
 }
@@ -139,6 +142,9 @@ void Grid<D>::setAdditionalSteps(
     if (nCells == 0) {
         return;
     }
+    if (*std::min_element(step.begin(), step.end()) < 0.0) {
+        throw std::out_of_range("Grid steps must not be negative");
+    }
     std::vector<Math::Real> newPos(nCells);
     if (b == Math::Constants::U) {
         newPos[0] = pos_[d].back() + step[0];
diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 2be2adc..82fa114 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -594,6 +594,9 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
                 strToCVecR3(g.at("stepSize").get<std::string>());
             if (g.at("fitSizeToBox").get<bool>()) {
                 for (std::size_t i = 0; i < 3; i++) {
+					if (stepSize[i] < 0.0) {
+						throw std::logic_error("Step size is negative.");
+					}
 					std::size_t n = std::round(box.getLength()[i] / stepSize[i]);
 					if (n == 0) {
 						n = 1;
-- 
2.43.0


From fdfc06abd3883709324cd2ab4e170874cc842f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 44/62] fix: the closest coordinate, first and last vertices
 and sides of elements are the ones asked for

---
 src/core/geometry/element/Element.hpp | 17 +++++++++++++----
 src/core/geometry/element/Group.hpp   |  9 +++++----
 src/core/geometry/element/Volume.hpp  |  5 ++++-
 3 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index d9347e1..401b48f 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -43,6 +43,9 @@ bool Element<T>::operator==(const Base& rhs) const {
         return false;
     }
     const Element<T>* rhsPtr = rhs.castTo<Element<T>>();
+    if (this->numberOfCoordinates() != rhsPtr->numberOfCoordinates()) {
+        return false;
+    }
     bool res = true;
     res &= (this->getId() == rhsPtr->getId());
     for (std::size_t i = 0; i < this->numberOfCoordinates(); i++) {
@@ -99,6 +102,9 @@ const Coordinate::Coordinate<T,3>* Element<T>::getMinV() const {
                 res = getVertex(i);
                 break;
             }
+            if(Math::Util::greater(val1, val2, res->pos().norm())) {
+                break;
+            }
         }
     }
     return res;
@@ -119,6 +125,9 @@ const Coordinate::Coordinate<T,3>* Element<T>::getMaxV() const {
                 res = getVertex(i);
                 break;
             }
+            if(Math::Util::lower(val1, val2, res->pos().norm())) {
+                break;
+            }
         }
     }
     return res;
@@ -148,8 +157,8 @@ template<class T>
 std::vector<const Coordinate::Coordinate<T,3>*> Element<T>::getSideCoordinates(
         const std::size_t face) const {
     std::vector<const Coordinate::Coordinate<T,3>*>
-        res(numberOfSideCoordinates());
-    for (std::size_t i = 0; i < numberOfSideCoordinates(); i++) {
+        res(numberOfSideCoordinates(face));
+    for (std::size_t i = 0; i < numberOfSideCoordinates(face); i++) {
         res[i] = getSideV(face,i);
     }
     return res;
@@ -159,8 +168,8 @@ template<class T>
 std::vector<const Coordinate::Coordinate<T,3>*> Element<T>::getSideVertices(
         const std::size_t face) const {
     std::vector<const Coordinate::Coordinate<T, 3>*> res;
-    res.resize(numberOfSideVertices());
-    for (std::size_t i = 0; i < numberOfSideVertices(); i++) {
+    res.resize(numberOfSideVertices(face));
+    for (std::size_t i = 0; i < numberOfSideVertices(face); i++) {
         res[i] = getSideVertex(face,i);
     }
     return res;
diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index 8245c67..31a35aa 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -66,6 +66,7 @@ Group<const E> Group<E>::getCoordId(const CoordId id) const {
 		for (size_t j = 0; j < elem->numberOfCoordinates(); j++) {
 			if (elem->getV(j)->getId() == id) {
 				res.add(elem);
+				break;
 			}
 		}
 	}
@@ -219,11 +220,11 @@ const CoordR3* Group<E>::getClosestVertex(const Math::CVecR3 pos) const {
     Math::Real minDist = std::numeric_limits<Math::Real>::infinity();
     Group<const ElemR> elems = this->template getOf<ElemR>();
     for (std::size_t b = 0; b < elems.size(); b++) {
-        for (std::size_t i = 0; i < elems(i)->numberOfCoordinates(); i++) {
-            const CoordR3* candidate = elems(i)->getV(i);
-            if ((candidate->pos() - res->pos()).norm() < minDist) {
+        for (std::size_t i = 0; i < elems(b)->numberOfCoordinates(); i++) {
+            const CoordR3* candidate = elems(b)->getV(i);
+            if ((candidate->pos() - pos).norm() < minDist) {
                 res = candidate;
-                minDist = (candidate->pos() - res->pos()).norm();
+                minDist = (candidate->pos() - pos).norm();
             }
         }
     }
diff --git a/src/core/geometry/element/Volume.hpp b/src/core/geometry/element/Volume.hpp
index a0578dc..3c5b520 100755
--- a/src/core/geometry/element/Volume.hpp
+++ b/src/core/geometry/element/Volume.hpp
@@ -63,7 +63,7 @@ Math::Vector::Cartesian<T,3> Volume<T>::getSideNormal(
 template<class T>
 Box<T,3> Volume<T>::getBoundOfFace(const std::size_t face) const {
     Box<T,3> res;
-   for (std::size_t i = 0; i < this->numberOfSideCoordinates(); i++) {
+   for (std::size_t i = 0; i < this->numberOfSideCoordinates(face); i++) {
       res << this->getSideV(face,i)->pos();
    }
    return res;
@@ -73,6 +73,9 @@ template<class T>
 std::size_t Volume<T>::getFaceNumber(const Surface<T>* surf) const {
     // Checks each face. Order is not important.
     for (std::size_t f = 0; f < this->numberOfFaces(); f++) {
+        if (this->numberOfSideVertices(f) != surf->numberOfVertices()) {
+            continue;
+        }
         std::size_t vPresent = 0;
         for (std::size_t i = 0; i < surf->numberOfVertices(); i++) {
             for (std::size_t j = 0; j < surf->numberOfVertices(); j++) {
-- 
2.43.0


From 21d0618752ce2972b974c6902eb75626345c1bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 45/62] fix: conformal lines and polyhedra are built or refused

---
 src/core/geometry/element/LineConformal.cpp | 13 ++++++++-----
 src/core/geometry/element/Polyhedron.cpp    |  3 +++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/core/geometry/element/LineConformal.cpp b/src/core/geometry/element/LineConformal.cpp
index 25dff46..54146e1 100755
--- a/src/core/geometry/element/LineConformal.cpp
+++ b/src/core/geometry/element/LineConformal.cpp
@@ -26,7 +26,7 @@ namespace Geometry {
 namespace Element {
 
 LineConformal::LineConformal() {
-    checkCoordinates();
+
 }
 
 LineConformal::LineConformal(const Id id,
@@ -47,7 +47,8 @@ LineConformal::LineConformal(const CoordI3* v[2],
                              const Math::CVecR3& norm,
                              const Layer* lay,
                              const Model* mat)
-:   Elem(lay, mat) {
+:   Elem(lay, mat),
+    LinI2(v) {
     checkCoordinates();
     norm_  = norm;
 }
@@ -70,8 +71,10 @@ const CoordConf* LineConformal::getV(const std::size_t i) const {
 }
 
 void LineConformal::setV(const std::size_t i, const CoordI3* coord) {
+    if (!coord->is<CoordConf>()) {
+        throw Error::Coord::NotConf(coord->getId());
+    }
     LinI2::setV(i, coord);
-    checkCoordinates();
 }
 
 void LineConformal::printInfo() const {
@@ -85,8 +88,8 @@ void LineConformal::printInfo() const {
 
 void LineConformal::checkCoordinates() {
     for(std::size_t i = 0; i < this->numberOfCoordinates(); i++) {
-        if (!this->getV(i)->is<CoordConf>()) {
-            throw Error::Coord::NotConf(this->getV(i)->getId());
+        if (!LinI2::getV(i)->is<CoordConf>()) {
+            throw Error::Coord::NotConf(LinI2::getV(i)->getId());
         }
     }
 }
diff --git a/src/core/geometry/element/Polyhedron.cpp b/src/core/geometry/element/Polyhedron.cpp
index f7f5ba9..d0f3cb1 100755
--- a/src/core/geometry/element/Polyhedron.cpp
+++ b/src/core/geometry/element/Polyhedron.cpp
@@ -158,6 +158,9 @@ void Polyhedron::checkClosedness() const {
             row++;
         }
     }
+    if (nSidesInFaces % 2 != 0) {
+        throw Error::NotClosed();
+    }
     list.sortRows(0,1);
     for (std::size_t i = 0; i < nSidesInFaces; i += 2) {
         if (list(i,0) != list(i+1,0) || list(i,1) != list(i+1,1)) {
-- 
2.43.0


From b398fbc81fc7e201f7323a46bc25e1ed605c70e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:53 +0000
Subject: [PATCH 46/62] fix: the sides of second order triangles end at
 vertices

---
 src/core/math/simplex/Triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/simplex/Triangle.hpp b/src/core/math/simplex/Triangle.hpp
index 68d7b4d..3306df6 100755
--- a/src/core/math/simplex/Triangle.hpp
+++ b/src/core/math/simplex/Triangle.hpp
@@ -105,7 +105,7 @@ inline std::size_t Triangle<N>::vertex(std::size_t i) const {
 template<size_t N>
 inline std::size_t Triangle<N>::sideVertex(const std::size_t f,
                                                    const std::size_t i) const {
-    return sideNode(f,i);
+    return sideNode(f,i*(nfp-1));
 }
 
 template <size_t N>
-- 
2.43.0


From 5f83998cc8a752b6f91eb2155333a528d2cf4c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 47/62] fix: what elements refer to is replaced completely or
 not at all

---
 src/core/geometry/element/Group.hpp | 33 +++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index 31a35aa..3530022 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -273,20 +273,44 @@ template<typename E> template<class T>
 void Group<E>::reassignPointers(
         const Coordinate::Group< Coordinate::Coordinate<T,3> >& vNew) {
 
+    struct Change {
+        Element<T>* elem;
+        std::size_t j;
+        const Coordinate::Coordinate<T,3>* prev;
+        const Coordinate::Coordinate<T,3>* next;
+    };
+    std::vector<Change> changes;
     for (std::size_t i = 0; i < this->size(); i++) {
         if (this->get(i)->template is< Element<T> >()) {
             Element<T>* elem = this->get(i)->template castTo< Element<T> >();
             for (std::size_t j = 0; j < elem->numberOfCoordinates(); j++) {
-                CoordId vId = elem->getV(j)->getId();
-                elem->setV(j, vNew.getId(vId));
+                const Coordinate::Coordinate<T,3>* v = elem->getV(j);
+                Change change = {elem, j, v, vNew.getId(v->getId())};
+                changes.push_back(change);
             }
         }
     }
+    std::size_t n = 0;
+    try {
+        for (; n < changes.size(); n++) {
+            changes[n].elem->setV(changes[n].j, changes[n].next);
+        }
+    } catch (...) {
+        while (n-- > 0) {
+            changes[n].elem->setV(changes[n].j, changes[n].prev);
+        }
+        throw;
+    }
 }
 
 template<typename E>
 void Group<E>::reassignPointers(
         const SEMBA::Geometry::Layer::Group<Layer>& lNew) {
+    for (std::size_t i = 0; i < this->size(); i++) {
+        if (this->get(i)->getLayer() != nullptr) {
+            lNew.getId(this->get(i)->getLayerId()); // Throws if missing.
+        }
+    }
     for (std::size_t i = 0; i < this->size(); i++) {
         if (this->get(i)->getLayer() != nullptr) {
             this->get(i)->setLayer(lNew.getId(this->get(i)->getLayerId()));
@@ -297,6 +321,11 @@ void Group<E>::reassignPointers(
 template<typename E>
 void Group<E>::reassignPointers(
         const SEMBA::Group::Identifiable<Model,MatId>& mNew) {
+    for (std::size_t i = 0; i < this->size(); i++) {
+        if (this->get(i)->getModel() != nullptr) {
+            mNew.getId(this->get(i)->getMatId()); // Throws if missing.
+        }
+    }
     for (std::size_t i = 0; i < this->size(); i++) {
         if (this->get(i)->getModel() != nullptr) {
             this->get(i)->setModel(mNew.getId(this->get(i)->getMatId()));
-- 
2.43.0


From 8066ef902a6d71f879b6d356717dbb56c6aaa75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:28 +0000
Subject: [PATCH 48/62] fix: a grid is cartesian when every cell has the same
 size

The first cell of each direction was not compared, so that grids of one cell
per direction were always taken for cartesian.
---
 src/core/geometry/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 0562c11..35d158c 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -240,7 +240,7 @@ bool Grid<D>::isCartesian() const {
     Math::Real canon = getStep(Math::Constants::x)[0];
     for (std::size_t i = 0; i < D; i++) {
         std::vector<Math::Real> step = getStep(i);
-        for (std::size_t n = 1; n < step.size(); n++) {
+        for (std::size_t n = 0; n < step.size(); n++) {
             if (Math::Util::notEqual(step[n], canon, canon, tolerance)) {
                 return false;
             }
-- 
2.43.0


From ae7bdf298dc0a0f55b161686c35f0bb5c2d0c8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 49/62] fix: a box is cut into pieces that cover it exactly,
 whatever the grid

---
 src/core/geometry/Box.hpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/core/geometry/Box.hpp b/src/core/geometry/Box.hpp
index 800f16c..f8fa7c4 100755
--- a/src/core/geometry/Box.hpp
+++ b/src/core/geometry/Box.hpp
@@ -400,15 +400,19 @@ std::vector<Box<T,D>> Box<T,D>::chop(const Grid<D>& grid) const {
     // Prepares subgrid with the size of the box preserving grid positions.
     std::vector<Math::Real> pos[D];
     for (std::size_t d = 0; d < D; d++) {
-        pos[d] = grid.getPosInRange(d, min_(d), max_(d));
-        if (min_(d) != pos[d].front()) {
-            std::vector<Math::Real> aux(1,min_(d));
-            aux.insert(aux.end(), pos[d].begin(), pos[d].end());
-            pos[d] = aux;
-        }
-        if (max_(d) != pos[d].back()) {
-            pos[d].push_back(max_(d));
+        pos[d].push_back(min_(d));
+        std::vector<Math::Real> cuts =
+                grid.getPosInRange(d, min_(d), max_(d));
+        for (std::size_t i = 0; i < cuts.size(); i++) {
+            const Math::Real step = max_(d) - min_(d);
+            if (Math::Util::greater(cuts[i], (Math::Real) min_(d),
+                                    step, (Math::Real) 1e-9) &&
+                Math::Util::lower(cuts[i], (Math::Real) max_(d),
+                                  step, (Math::Real) 1e-9)) {
+                pos[d].push_back(cuts[i]);
+            }
         }
+        pos[d].push_back(max_(d));
     }
     Grid<D> subGrid;
     subGrid.setPos(pos);
@@ -421,8 +425,12 @@ std::vector<Box<T,D>> Box<T,D>::chop(const Grid<D>& grid) const {
     for (Math::Int i = 0; i < numBoxes(Math::Constants::x); i++) {
         for (Math::Int j = 0; j < numBoxes(Math::Constants::y); j++) {
             for (Math::Int k = 0; k < numBoxes(Math::Constants::z); k++) {
-                CVecTD minP = subGrid.getPos(CVecTD(i,j,k));
-                CVecTD maxP = subGrid.getPos(CVecTD(i+1,j+1,k+1));
+                Math::Vector::Cartesian<Math::Real,D> minP =
+                        subGrid.getPos(Math::Vector::Cartesian<Math::Int,D>(
+                                i,j,k));
+                Math::Vector::Cartesian<Math::Real,D> maxP =
+                        subGrid.getPos(Math::Vector::Cartesian<Math::Int,D>(
+                                i+1,j+1,k+1));
                 CVecTD minT, maxT;
                 for (std::size_t d = 0; d < D; d++) {
                     if (minP(d) >= min_(d)) {
-- 
2.43.0


From bfac8390a5c0975c3e0b4b73887c79385a8dcd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:15 +0000
Subject: [PATCH 50/62] fix: terms of one power are added when polynomials are
 multiplied

---
 src/core/math/function/Polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index 6610c6f..16738db 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -274,7 +274,7 @@ Matrix::Dynamic<T> Polynomial<T>::polynomialToMatrix() const {
     Matrix::Dynamic<T>  res(maxPower() + 1, 1);
     // Copies monomials to vector positions.
     for (std::size_t i = 0; i < nm_; i++)
-        res(mp_[i][0], 0) = mv_[i];
+        res(mp_[i][0], 0) += mv_[i];
     return res;
 }
 
-- 
2.43.0


From 012d5e161d9973aeeaa9b997bca79cc1b404f369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 51/62] fix: removing the zeros of a polynomial misses none

---
 src/core/math/function/Polynomial.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index 16738db..1eba72c 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -149,12 +149,16 @@ void Polynomial<T>::derive(std::size_t coord) {
 
 template<class T>
 void Polynomial<T>::removeZeros() {
-    for (std::size_t i = 0; i < nm_; i++)
+    std::size_t i = 0;
+    while (i < nm_) {
         if (mv_[i] == 0) {
             nm_--;
             mv_.erase(mv_.begin() + i);
             mp_.erase(mp_.begin() + i);
+        } else {
+            i++;
         }
+    }
 }
 
 template<class T>
-- 
2.43.0


From 2cc854033151565fe964b2eb8da12e919727c7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:53 +0000
Subject: [PATCH 52/62] fix: a polynomial is left as it was when memory runs
 out

---
 src/core/math/function/Polynomial.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index 1eba72c..347efdf 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -44,10 +44,12 @@ template<class T>
 Polynomial<T>& Polynomial<T>::operator=(const Polynomial<T> &param) {
     if (this == &param)
         return *this;
+    std::vector<T> mv(param.mv_);
+    std::vector<std::vector<Int>> mp(param.mp_);
     nv_ = param.nv_;
     nm_ = param.nm_;
-    mv_ = param.mv_;
-    mp_ = param.mp_;
+    mv_.swap(mv);
+    mp_.swap(mp);
     return *this;
 }
 
@@ -285,18 +287,20 @@ Matrix::Dynamic<T> Polynomial<T>::polynomialToMatrix() const {
 template<class T>
 void Polynomial<T>::addMonomial(T val, std::vector<Int> pow) {
     assert(nv_ == pow.size());
-    nm_++;
-    mv_.push_back(val);
     mp_.push_back(pow);
+    try {
+        mv_.push_back(val);
+    } catch (...) {
+        mp_.pop_back();
+        throw;
+    }
+    nm_++;
 }
 
 template<class T>
 void Polynomial<T>::addMonomial(T val, Int pow) {
     assert(nv_ == 1);
-    std::vector<Int> vPow(1, pow);
-    nm_++;
-    mv_.push_back(val);
-    mp_.push_back(vPow);
+    addMonomial(val, std::vector<Int>(1, pow));
 }
 
 template<class T>
-- 
2.43.0


From b79fcc9d7a27418c6985956af1c5adb41bd9ad80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:18 +0000
Subject: [PATCH 53/62] fix: the description of a multilayer tells its values
 apart

---
 src/core/physicalModel/surface/Multilayer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/physicalModel/surface/Multilayer.cpp b/src/core/physicalModel/surface/Multilayer.cpp
index 8f9cad5..7dadccc 100755
--- a/src/core/physicalModel/surface/Multilayer.cpp
+++ b/src/core/physicalModel/surface/Multilayer.cpp
@@ -95,10 +95,10 @@ void Multilayer::printInfo() const {
     std::cout << " --- SurfaceMultilayer info ---" << std::endl;
     Surface::printInfo();
     std::cout << "Number of layers: " << getNumberOfLayers() << std::endl;
-    std::cout << "#, Thickness, Permittivity, Permeability, ElecCond"
+    std::cout << "#, ElecCond, Permittivity, Permeability, Thickness"
               << std::endl;
     for (std::size_t i = 0; i < getNumberOfLayers(); i++) {
-        std::cout<< i << printLayer(i) << std::endl;
+        std::cout << i << " " << printLayer(i) << std::endl;
     }
     std::cout << " --- End of SurfaceMultilayer info ---" << std::endl;
 }
-- 
2.43.0


From 9f7b0cc1f084e06656bdd5b65ea9b7089412515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:29 +0000
Subject: [PATCH 54/62] fix: a source on lines is described with its hardness

---
 src/core/source/OnLine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/OnLine.cpp b/src/core/source/OnLine.cpp
index 1fb47d0..902745c 100755
--- a/src/core/source/OnLine.cpp
+++ b/src/core/source/OnLine.cpp
@@ -77,7 +77,7 @@ std::string OnLine::getTypeStr() const {
 }
 
 std::string OnLine::getHardnessStr() const {
-    switch (type_) {
+    switch (hardness_) {
     case hard:
         return "Hard";
     default:
-- 
2.43.0


From 6ed484715fe3f79bc964b2efe082b3d29f79d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:43 +0000
Subject: [PATCH 55/62] fix: a dispersive material keeps its conductivity

---
 src/core/physicalModel/volume/Dispersive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/physicalModel/volume/Dispersive.cpp b/src/core/physicalModel/volume/Dispersive.cpp
index 4e1973c..6de146b 100755
--- a/src/core/physicalModel/volume/Dispersive.cpp
+++ b/src/core/physicalModel/volume/Dispersive.cpp
@@ -47,7 +47,8 @@ Dispersive::Dispersive(const Id id,
     if (magnCond != 0.0) {
         throw std::logic_error("Dispersive magnetic materials not implemented");
     }
-    poleResidue_ = poleResidue;
+    poleResidue_.insert(poleResidue_.end(),
+                        poleResidue.begin(), poleResidue.end());
 }
 
 Dispersive::Dispersive(const Id id,
-- 
2.43.0


From 216a128b6b7da4b347e73b50846dfbd925fdb734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 56/62] fix: a waveguide port that can not be set keeps its
 elements

---
 src/core/source/port/WaveguideRectangular.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/source/port/WaveguideRectangular.cpp b/src/core/source/port/WaveguideRectangular.cpp
index 9f6b991..9ad5a75 100755
--- a/src/core/source/port/WaveguideRectangular.cpp
+++ b/src/core/source/port/WaveguideRectangular.cpp
@@ -105,8 +105,10 @@ Math::Real WaveguideRectangular::getHeight() const {
 
 void WaveguideRectangular::set(
     const Geometry::Element::Group<const Geometry::Elem>& constGroupElems) {
+    const Geometry::Element::Group<const Geometry::Surf> surfs(constGroupElems);
+    const Geometry::BoxR3 box = surfs.getBound();
     Waveguide::set(constGroupElems);
-    box_ = this->getBound();
+    box_ = box;
 }
 
 Math::CVecR3 WaveguideRectangular::getOrigin() const {
-- 
2.43.0


From 6892476795b869a9974465b5e109ad96c73ab495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:17 +0000
Subject: [PATCH 57/62] fix: a coaxial port that can not be set keeps its size

---
 src/core/source/port/TEMCoaxial.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/source/port/TEMCoaxial.cpp b/src/core/source/port/TEMCoaxial.cpp
index 4d3c5d8..14f806c 100755
--- a/src/core/source/port/TEMCoaxial.cpp
+++ b/src/core/source/port/TEMCoaxial.cpp
@@ -103,12 +103,12 @@ void TEMCoaxial::set(
     const Math::Real height = box.getMax()(Math::Constants::y) -
                               box.getMin()(Math::Constants::y);
     const Math::Real averageNewRadius = (width + height)/4;
-    innerRadius_ *= averageNewRadius;
-    outerRadius_ *= averageNewRadius;
     const Math::CVecR3 averageNewOrigin = (box.getMax() + box.getMin()) / 2;
-    origin_ = averageNewOrigin;
     //
     Source<Geometry::Surf>::set(elemGroup);
+    innerRadius_ *= averageNewRadius;
+    outerRadius_ *= averageNewRadius;
+    origin_ = averageNewOrigin;
 }
 
 } /* namespace Port */
-- 
2.43.0


From f433682d185853e073790376df665dd649b9e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:39 +0000
Subject: [PATCH 58/62] fix: a domain that can not be assigned is left as it
 was

---
 src/core/outputRequest/Domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/outputRequest/Domain.cpp b/src/core/outputRequest/Domain.cpp
index b0718d9..0a2b3a5 100755
--- a/src/core/outputRequest/Domain.cpp
+++ b/src/core/outputRequest/Domain.cpp
@@ -87,6 +87,7 @@ Domain& Domain::operator =(const Domain& rhs) {
     if (this == &rhs) {
         return *this;
     }
+    transferFunctionFile_ = rhs.transferFunctionFile_;
     timeDomain_ = rhs.timeDomain_;
     initialTime_ = rhs.initialTime_;
     finalTime_ = rhs.finalTime_;
@@ -97,7 +98,6 @@ Domain& Domain::operator =(const Domain& rhs) {
     frequencyStep_ = rhs.frequencyStep_;
     logFrequencySweep_ = rhs.logFrequencySweep_;
     usingTransferFunction_ = rhs.usingTransferFunction_;
-    transferFunctionFile_ = rhs.transferFunctionFile_;
     return *this;
 }
 
-- 
2.43.0


From 5bb788e8ea6c2b803fa3f36ad6af82012091d42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 59/62] fix: a dispersive material without poles is told to be
 classic

---
 src/core/physicalModel/volume/Dispersive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/physicalModel/volume/Dispersive.cpp b/src/core/physicalModel/volume/Dispersive.cpp
index 6de146b..dcfae68 100755
--- a/src/core/physicalModel/volume/Dispersive.cpp
+++ b/src/core/physicalModel/volume/Dispersive.cpp
@@ -105,7 +105,8 @@ bool Dispersive::isSimplyConductive() const {
     if (!file_.empty()) {
         return false;
     }
-    return (poleResidue_.size() <= 1 && std::abs(getPole(0)) == 0);
+    return poleResidue_.empty() ||
+           (poleResidue_.size() == 1 && std::abs(getPole(0)) == 0);
 }
 
 Math::Real Dispersive::getElectricConductivity() const {
-- 
2.43.0


From 926dcdec90cb9748bcea5d4529d86b71d00f29f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:23 +0000
Subject: [PATCH 60/62] fix: a rectangular waveguide port keeps its old size
 when elements are added

---
 src/core/source/port/WaveguideRectangular.cpp | 11 +++++++++++
 src/core/source/port/WaveguideRectangular.h   |  1 +
 2 files changed, 12 insertions(+)

diff --git a/src/core/source/port/WaveguideRectangular.cpp b/src/core/source/port/WaveguideRectangular.cpp
index 9ad5a75..01b6660 100755
--- a/src/core/source/port/WaveguideRectangular.cpp
+++ b/src/core/source/port/WaveguideRectangular.cpp
@@ -111,6 +111,17 @@ void WaveguideRectangular::set(
     box_ = box;
 }
 
+void WaveguideRectangular::add(
+    const Geometry::Element::Group<const Geometry::Elem>& constGroupElems) {
+    const Geometry::Element::Group<const Geometry::Surf> surfs(constGroupElems);
+    Geometry::BoxR3 box = box_;
+    if (surfs.size() != 0) {
+        box << surfs.getBound();
+    }
+    Waveguide::add(constGroupElems);
+    box_ = box;
+}
+
 Math::CVecR3 WaveguideRectangular::getOrigin() const {
     return box_.getMin();
 }
diff --git a/src/core/source/port/WaveguideRectangular.h b/src/core/source/port/WaveguideRectangular.h
index f8885c5..0e7e0cf 100755
--- a/src/core/source/port/WaveguideRectangular.h
+++ b/src/core/source/port/WaveguideRectangular.h
@@ -44,6 +44,7 @@ public:
     SEMBA_CLASS_DEFINE_CLONE(WaveguideRectangular);
 
     void set(const Geometry::Element::Group<const Geometry::Elem>&);
+    void add(const Geometry::Element::Group<const Geometry::Elem>&);
 
     const std::string& getName() const;
     Math::Real getWidth() const;
-- 
2.43.0


From 44166f947628b9c08760d766a97fb017ebbce9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:08 +0000
Subject: [PATCH 61/62] fix: a rectangular waveguide port accepts elements
 outside its plane

---
 src/core/source/port/Waveguide.cpp            | 13 ++++++++-----
 src/core/source/port/Waveguide.h              |  2 ++
 src/core/source/port/WaveguideRectangular.cpp |  4 ++++
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/core/source/port/Waveguide.cpp b/src/core/source/port/Waveguide.cpp
index fee22f8..5b04ce2 100755
--- a/src/core/source/port/Waveguide.cpp
+++ b/src/core/source/port/Waveguide.cpp
@@ -39,11 +39,7 @@ Waveguide::Waveguide(SEMBA::Source::Magnitude::Magnitude* magnitude,
                                "in a coplanar Geometry::Surface");
     }
 
-    Math::CVecR3 diagonal = elem.getBound().getMax() -
-                            elem.getBound().getMin();
-    if (!diagonal.isContainedInPlane(Math::Constants::xy)) {
-        throw std::logic_error("Waveport must be contained in plane xy.");
-    }
+    checkPlane_(elem.getBound());
 
     if (elem.size() == 0) {
         throw std::logic_error("Waveport must contain some elements.");
@@ -68,6 +64,13 @@ std::pair<size_t,size_t> Waveguide::getMode() const {
     return mode_;
 }
 
+void Waveguide::checkPlane_(const Geometry::BoxR3& box) {
+    const Math::CVecR3 diagonal = box.getMax() - box.getMin();
+    if (!diagonal.isContainedInPlane(Math::Constants::xy)) {
+        throw std::logic_error("Waveport must be contained in plane xy.");
+    }
+}
+
 void Waveguide::printInfo() const {
     std::cout << "--- Waveguide port info ---" << std::endl;
     std::cout << "Mode: ";
diff --git a/src/core/source/port/Waveguide.h b/src/core/source/port/Waveguide.h
index 4dda44a..d2c1c60 100755
--- a/src/core/source/port/Waveguide.h
+++ b/src/core/source/port/Waveguide.h
@@ -47,6 +47,8 @@ public:
     std::pair<size_t, size_t> getMode() const;
 
     void printInfo() const;
+protected:
+    static void checkPlane_(const Geometry::BoxR3& box);
 private:
     ExcitationMode excitationMode_;
     std::pair<size_t,size_t> mode_;
diff --git a/src/core/source/port/WaveguideRectangular.cpp b/src/core/source/port/WaveguideRectangular.cpp
index 01b6660..092e7a4 100755
--- a/src/core/source/port/WaveguideRectangular.cpp
+++ b/src/core/source/port/WaveguideRectangular.cpp
@@ -107,6 +107,9 @@ void WaveguideRectangular::set(
     const Geometry::Element::Group<const Geometry::Elem>& constGroupElems) {
     const Geometry::Element::Group<const Geometry::Surf> surfs(constGroupElems);
     const Geometry::BoxR3 box = surfs.getBound();
+    if (surfs.size() != 0) {
+        checkPlane_(box);
+    }
     Waveguide::set(constGroupElems);
     box_ = box;
 }
@@ -117,6 +120,7 @@ void WaveguideRectangular::add(
     Geometry::BoxR3 box = box_;
     if (surfs.size() != 0) {
         box << surfs.getBound();
+        checkPlane_(box);
     }
     Waveguide::add(constGroupElems);
     box_ = box;
-- 
2.43.0


From 2dc7f33f85e323d2858984802e3bf4f868883548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:13 +0000
Subject: [PATCH 62/62] fix: a VTK export writes positions with fewer digits
 than it announces

---
 src/exporter/vtk/Exporter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index 14338ed..b01e9ba 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -21,6 +21,7 @@
 
 #include "Exporter.h"
 
+#include <limits>
 #include <memory>
 
 #include "geometry/mesh/Unstructured.h"
@@ -224,6 +225,8 @@ void Exporter::writePoints_(std::ofstream &outFile,
             << "format=\"ascii\""
             << ">" << std::endl;
     outFile << "         ";
+    // Enough digits to tell apart all positions in single precision.
+    outFile.precision(std::numeric_limits<float>::max_digits10);
     for (std::size_t i = 0; i < pos.size(); i++) {
         outFile << " " << pos[i](Math::Constants::x)
                 << " " << pos[i](Math::Constants::y)
-- 
2.43.0

