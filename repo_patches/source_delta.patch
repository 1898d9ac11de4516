From 4beb5dd973ef459772e55de3ac1108b8acf9709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 01/60] fix: interleaved storage keeps fixed attributes in
 their own record and checks indices

---
 src/lib/core/ParticleSimpleInterleave.cpp | 33 ++++++++++-------------
 src/lib/core/ParticleSimpleInterleave.h   |  1 +
 2 files changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 573998a..5f28f9a 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -50,7 +50,7 @@ using namespace Partio;
 
 ParticlesSimpleInterleave::
 ParticlesSimpleInterleave()
-    :particleCount(0),allocatedCount(0),data(nullptr),fixedData(nullptr),stride(0),kdtree(nullptr)
+    :particleCount(0),allocatedCount(0),data(nullptr),fixedData(nullptr),stride(0),fixedStride(0),kdtree(nullptr)
 {
 }
 
@@ -246,27 +246,16 @@ addFixedAttribute(const char* attribute,ParticleAttributeType type,const int cou
     FixedAttribute attr;
     attr.name=attribute;
     attr.type=type;
-    attr.attributeIndex=attributes.size(); //  all arrays separate so we don't use this here!
+    attr.attributeIndex=fixedAttributes.size(); //  all arrays separate so we don't use this here!
     attr.count=count;
     fixedAttributes.push_back(attr);
     nameToFixedAttribute[attribute]=fixedAttributes.size()-1;
 
-    // repackage data for new attribute
-    int oldStride=stride;
-    int newStride=stride+TypeSize(type)*count;
-    char* newData=(char*)malloc((size_t)newStride);
-    if(fixedData){
-        char* ptrNew=newData;
-        char* ptrOld=fixedData;
-        for(int i=0;i<particleCount;i++){
-            memcpy(ptrNew,ptrOld,oldStride);
-            ptrNew+=newStride;
-            ptrOld+=oldStride;
-        }
-    }
-    free(fixedData);
-    fixedData=newData;
-    stride=newStride;
+    // append storage for new attribute to the single fixed record
+    int oldStride=fixedStride;
+    int newStride=fixedStride+TypeSize(type)*count;
+    fixedData=(char*)realloc(fixedData,(size_t)newStride);
+    fixedStride=newStride;
     fixedAttributeOffsets.push_back(oldStride);
     fixedAttributeIndexedStrs.push_back(IndexedStrTable());
 
@@ -340,13 +329,19 @@ setupAccessor(Partio::ParticleIterator<true>&,ParticleAccessor& accessor) const
 void* ParticlesSimpleInterleave::
 dataInternal(const ParticleAttribute& attribute,const ParticleIndex particleIndex) const
 {
+    if (particleIndex >= (ParticleIndex)numParticles()) {
+        std::cerr << "Invalid attempt to set particle value on index "
+                  << particleIndex << " in data with " << numParticles()
+                  << " particles." << std::endl;
+        return nullptr;
+    }
     return data+particleIndex*stride+attributeOffsets[attribute.attributeIndex];
 }
 
 void* ParticlesSimpleInterleave::
 fixedDataInternal(const FixedAttribute& attribute) const
 {
-    return data+allocatedCount*stride+fixedAttributeOffsets[attribute.attributeIndex];
+    return fixedData+fixedAttributeOffsets[attribute.attributeIndex];
 }
 
 void ParticlesSimpleInterleave::
diff --git a/src/lib/core/ParticleSimpleInterleave.h b/src/lib/core/ParticleSimpleInterleave.h
index bd40e01..7b1bf12 100644
--- a/src/lib/core/ParticleSimpleInterleave.h
+++ b/src/lib/core/ParticleSimpleInterleave.h
@@ -110,6 +110,7 @@ private:
     char* data;
     char* fixedData;
     int stride;
+    int fixedStride;
     struct IndexedStrTable{
         std::map<std::string,int> stringToIndex; // TODO: this should be a hash table unordered_map
         std::vector<std::string> strings;
-- 
2.43.0


From 3f66bf94e80ebd8fc81b0dace615881e08612f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 02/60] fix: renaming an indexed string to one another token
 has keeps the reverse map coherent

---
 src/lib/core/ParticleSimple.cpp           | 24 +++++++++++++++++++++--
 src/lib/core/ParticleSimpleInterleave.cpp | 24 +++++++++++++++++++++--
 2 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index 4fa23e6..827a1f1 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -437,7 +437,17 @@ fixedIndexedStrs(const FixedAttribute& attr) const
 void ParticlesSimple::setIndexedStr(const ParticleAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=attributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
+    std::map<std::string,int>::iterator it=table.stringToIndex.find(table.strings[indexedStringToken]);
+    if(it!=table.stringToIndex.end() && it->second==indexedStringToken){
+        // another token may still carry the string this one gives up
+        const std::string oldStr=it->first;
+        table.stringToIndex.erase(it);
+        for(size_t i=0;i<table.strings.size();i++)
+            if((int)i!=indexedStringToken && table.strings[i]==oldStr){
+                table.stringToIndex[oldStr]=static_cast<int>(i);
+                break;
+            }
+    }
     table.strings[indexedStringToken] = str;
     table.stringToIndex[str]=indexedStringToken;
 }
@@ -445,7 +455,17 @@ void ParticlesSimple::setIndexedStr(const ParticleAttribute& attribute,int index
 void ParticlesSimple::setFixedIndexedStr(const FixedAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
+    std::map<std::string,int>::iterator it=table.stringToIndex.find(table.strings[indexedStringToken]);
+    if(it!=table.stringToIndex.end() && it->second==indexedStringToken){
+        // another token may still carry the string this one gives up
+        const std::string oldStr=it->first;
+        table.stringToIndex.erase(it);
+        for(size_t i=0;i<table.strings.size();i++)
+            if((int)i!=indexedStringToken && table.strings[i]==oldStr){
+                table.stringToIndex[oldStr]=static_cast<int>(i);
+                break;
+            }
+    }
     table.strings[indexedStringToken] = str;
     table.stringToIndex[str]=indexedStringToken;
 }
diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 5f28f9a..957ebfc 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -435,7 +435,17 @@ fixedIndexedStrs(const FixedAttribute& attr) const
 void ParticlesSimpleInterleave::setIndexedStr(const ParticleAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=attributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
+    std::map<std::string,int>::iterator it=table.stringToIndex.find(table.strings[indexedStringToken]);
+    if(it!=table.stringToIndex.end() && it->second==indexedStringToken){
+        // another token may still carry the string this one gives up
+        const std::string oldStr=it->first;
+        table.stringToIndex.erase(it);
+        for(size_t i=0;i<table.strings.size();i++)
+            if((int)i!=indexedStringToken && table.strings[i]==oldStr){
+                table.stringToIndex[oldStr]=static_cast<int>(i);
+                break;
+            }
+    }
     table.strings[indexedStringToken] = str;
     table.stringToIndex[str]=indexedStringToken;
 }
@@ -443,7 +453,17 @@ void ParticlesSimpleInterleave::setIndexedStr(const ParticleAttribute& attribute
 void ParticlesSimpleInterleave::setFixedIndexedStr(const FixedAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
+    std::map<std::string,int>::iterator it=table.stringToIndex.find(table.strings[indexedStringToken]);
+    if(it!=table.stringToIndex.end() && it->second==indexedStringToken){
+        // another token may still carry the string this one gives up
+        const std::string oldStr=it->first;
+        table.stringToIndex.erase(it);
+        for(size_t i=0;i<table.strings.size();i++)
+            if((int)i!=indexedStringToken && table.strings[i]==oldStr){
+                table.stringToIndex[oldStr]=static_cast<int>(i);
+                break;
+            }
+    }
     table.strings[indexedStringToken] = str;
     table.stringToIndex[str]=indexedStringToken;
 }
-- 
2.43.0


From 619cb1b39f38a283b177ba59a01cd909e3d86bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 03/60] fix: postfix iterator increment ends at the last
 particle

---
 src/lib/PartioIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PartioIterator.h b/src/lib/PartioIterator.h
index e0ce86c..b42e7de 100644
--- a/src/lib/PartioIterator.h
+++ b/src/lib/PartioIterator.h
@@ -179,7 +179,7 @@ public:
     ParticleIterator operator++(int)
     {
         ParticleIterator newIt(*this);
-        index++;
+        ++(*this);
         return newIt;
     }
 
-- 
2.43.0


From 781308875ccc2b71e3e9e6b80ab282bc0c1e6da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:54 +0000
Subject: [PATCH 04/60] fix: iterators set up past the last particle are at the
 end

---
 src/lib/core/ParticleSimple.cpp           | 4 ++--
 src/lib/core/ParticleSimpleInterleave.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index 827a1f1..b72e67c 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -293,14 +293,14 @@ addParticles(const int countToAdd)
 ParticlesDataMutable::iterator ParticlesSimple::
 setupIterator(const int index)
 {
-    if(numParticles()==0) return ParticlesDataMutable::iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::iterator();
     return ParticlesDataMutable::iterator(this,index,numParticles()-1);
 }
 
 ParticlesData::const_iterator ParticlesSimple::
 setupConstIterator(const int index) const
 {
-    if(numParticles()==0) return ParticlesDataMutable::const_iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::const_iterator();
     return ParticlesData::const_iterator(this,index,numParticles()-1);
 }
 
diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 957ebfc..f9fb256 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -288,14 +288,14 @@ addParticles(const int countToAdd)
 ParticlesDataMutable::iterator ParticlesSimpleInterleave::
 setupIterator(const int index)
 {
-    if(numParticles()==0) return ParticlesDataMutable::iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::iterator();
     return ParticlesDataMutable::iterator(this,index,numParticles()-1);
 }
 
 ParticlesData::const_iterator ParticlesSimpleInterleave::
 setupConstIterator(const int index) const
 {
-    if(numParticles()==0) return ParticlesDataMutable::const_iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::const_iterator();
     return ParticlesData::const_iterator(this,index,numParticles()-1);
 }
 
-- 
2.43.0


From b34f992783c30c7c728f7e6fa23432417df77d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 05/60] fix: format tables are looked at only under their lock

---
 src/lib/io/ParticleIO.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/ParticleIO.cpp b/src/lib/io/ParticleIO.cpp
index ba4698f..de4bc42 100644
--- a/src/lib/io/ParticleIO.cpp
+++ b/src/lib/io/ParticleIO.cpp
@@ -52,8 +52,8 @@ readers()
 {
     static map<string,READER_FUNCTION> data;
     static bool initialized=false;
+    initializationMutex.lock();
     if(!initialized){
-	initializationMutex.lock();
         data["bgeo"]=readBGEO;
         data["bhclassic"]=readBGEO;
         data["geo"]=readGEO;
@@ -72,8 +72,8 @@ readers()
         data["itbl"]=readBGEO;
         data["atbl"]=readBGEO;
 	initialized=true;
-	initializationMutex.unlock();
     }
+    initializationMutex.unlock();
     return data;
 }
 
@@ -82,8 +82,8 @@ writers()
 {
     static map<string,WRITER_FUNCTION> data;
     static bool initialized=false;
+    initializationMutex.lock();
     if(!initialized){
-	initializationMutex.lock();
         data["bgeo"]=writeBGEO;
         data["bhclassic"]=writeBGEO;
         data["geo"]=writeGEO;
@@ -101,8 +101,8 @@ writers()
         data["itbl"]=writeBGEO;
         data["atbl"]=writeBGEO;
 	initialized=true;
-	initializationMutex.unlock();
     }
+    initializationMutex.unlock();
     return data;
 }
 
-- 
2.43.0


From 17695de768d5a47c91be34630983f4b1e815d3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 06/60] fix: cached read sorts on a cache hit when asked to

---
 src/lib/core/ParticleCaching.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lib/core/ParticleCaching.cpp b/src/lib/core/ParticleCaching.cpp
index 0d3e69e..58d3a91 100644
--- a/src/lib/core/ParticleCaching.cpp
+++ b/src/lib/core/ParticleCaching.cpp
@@ -48,6 +48,7 @@ namespace
 // cached read write
 std::map<ParticlesData*,int> cachedParticlesCount;
 std::map<std::string,ParticlesData*> cachedParticles;
+std::map<ParticlesData*,ParticlesDataMutable*> cachedParticlesUnsorted;
 
 ParticlesData* readCached(const char* filename,const bool sort,const bool verbose,std::ostream& error)
 {
@@ -58,11 +59,20 @@ ParticlesData* readCached(const char* filename,const bool sort,const bool verbos
     if(i!=cachedParticles.end()){
         p=i->second;
         cachedParticlesCount[p]++;
+        if(sort){
+            // the load may not have asked for sorting
+            std::map<ParticlesData*,ParticlesDataMutable*>::iterator i3=cachedParticlesUnsorted.find(p);
+            if(i3!=cachedParticlesUnsorted.end()){
+                i3->second->sort();
+                cachedParticlesUnsorted.erase(i3);
+            }
+        }
     }else{
         ParticlesDataMutable* p_rw=read(filename,verbose);
         if(p_rw){
-            if(sort) p_rw->sort();
             p=p_rw;
+            if(sort) p_rw->sort();
+            else cachedParticlesUnsorted[p]=p_rw;
             cachedParticles[filename]=p;
             cachedParticlesCount[p]=1;
         }
@@ -84,6 +94,7 @@ void freeCached(ParticlesData* particles)
         i->second--; // decrement ref count
         if(i->second==0){ // ref count is now zero, remove from structure
             delete particles;
+            cachedParticlesUnsorted.erase(particles);
             cachedParticlesCount.erase(i);
             for(std::map<std::string,ParticlesData*>::iterator i2=cachedParticles.begin();
                 i2!=cachedParticles.end();++i2){
-- 
2.43.0


From d4ab8f18f5b06f0322303d6d3716d367fd9ecc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:21 +0000
Subject: [PATCH 07/60] fix: cached read reports to the given error stream

---
 src/lib/core/ParticleCaching.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/core/ParticleCaching.cpp b/src/lib/core/ParticleCaching.cpp
index 58d3a91..3e38146 100644
--- a/src/lib/core/ParticleCaching.cpp
+++ b/src/lib/core/ParticleCaching.cpp
@@ -68,7 +68,7 @@ ParticlesData* readCached(const char* filename,const bool sort,const bool verbos
             }
         }
     }else{
-        ParticlesDataMutable* p_rw=read(filename,verbose);
+        ParticlesDataMutable* p_rw=read(filename,verbose,error);
         if(p_rw){
             p=p_rw;
             if(sort) p_rw->sort();
-- 
2.43.0


From e2ff466796bae1637aaf56828a60383365c9e13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 08/60] fix: clustering clamps a negative inner radius to zero

---
 src/lib/core/Particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index b3c81ff..3153964 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -381,7 +381,7 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
         Vec3 position(center[0], center[1], center[2]);
         int id = particles->data<int>(idAttr,index)[0];
         double radius = std::max(0., radiusInside);
-        radius = std::min(100., radiusInside);
+        radius = std::min(100., radius);
         double innerRadius = .01 * radius * radiusSearch;
         double invRadius = 1 / (radiusSearch - innerRadius);
 
-- 
2.43.0


From 509b8d7fd64ca78240a4e4728cb5732d6e6d791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 09/60] fix: merge gives wide and all new attributes a zero
 default from initialized memory

---
 src/lib/core/Particle.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 3153964..6022bc3 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -505,18 +505,18 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     }
 
     // Identify the attributes to be added (in delta, not present in base)
-    double empty[16]{0};
     for (int i=0; i<delta.numAttributes(); ++i) {
         ParticleAttribute baseAttr, deltaAttr;
         delta.attributeInfo(i, deltaAttr);
         if (!base.attributeInfo(deltaAttr.name.c_str(), baseAttr)) {
             baseAttr = base.addAttribute(deltaAttr.name.c_str(), deltaAttr.type, deltaAttr.count);
-            attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
 
             // Set the attribute to a default value in the base particle set
+            const std::vector<char> empty(TypeSize(baseAttr.type) * baseAttr.count + 1, 0);
             for (int p=0; p<base.numParticles(); ++p) {
-                base.set(baseAttr, p, empty);
+                base.set(baseAttr, p, empty.data());
             }
+            attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
         }
     }
 
-- 
2.43.0


From 8e902e170fda0e3ef9e31507e2b6cb698c95419f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 10/60] fix: merge re-indexes string attributes only the delta
 has

---
 src/lib/core/Particle.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 6022bc3..38a4307 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -516,6 +516,9 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
             for (int p=0; p<base.numParticles(); ++p) {
                 base.set(baseAttr, p, empty.data());
             }
+            if (baseAttr.type == INDEXEDSTR) {
+                indexStrAttrs.push_back(attrs.size());
+            }
             attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
         }
     }
-- 
2.43.0


From 387d5d10ea7b75994bcf9d2194e045cb4d9530cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:16 +0000
Subject: [PATCH 11/60] fix: merge re-indexes fixed string attributes

---
 src/lib/core/Particle.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 38a4307..f5bbb1d 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -460,6 +460,26 @@ struct IntPairHash {
     }
 };
 
+// Copies a fixed attribute value; string tokens are re-indexed in the base.
+static void mergeFixed(ParticlesDataMutable& base, const FixedAttribute& baseAttr,
+                       const ParticlesData& delta, const FixedAttribute& deltaAttr)
+{
+    if (baseAttr.type != INDEXEDSTR || deltaAttr.type != INDEXEDSTR) {
+        base.setFixed(baseAttr, delta.fixedData<void>(deltaAttr));
+        return;
+    }
+    const std::vector<std::string>& deltaStrs = delta.fixedIndexedStrs(deltaAttr);
+    std::vector<int> tokens;
+    for (const std::string& str : deltaStrs) {
+        tokens.push_back(base.registerFixedIndexedStr(baseAttr, str.c_str()));
+    }
+    const int* src = delta.fixedData<int>(deltaAttr);
+    int* dst = base.fixedDataWrite<int>(baseAttr);
+    for (int j=0; j<baseAttr.count && j<deltaAttr.count; ++j) {
+        dst[j] = (src[j] >= 0 && src[j] < (int)tokens.size()) ? tokens[src[j]] : src[j];
+    }
+}
+
 // merge two particle sets.  if no identifiers are specified, the particle sets will be aggregated together.
 // if one or more identifiers are specified, the particle will be overwritten if the identifier(s) match.
 // if the identifier only exists in one particle set, the particle sets will be aggregated together.
@@ -528,8 +548,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         FixedAttribute baseAttr, deltaAttr;
         base.fixedAttributeInfo(i, baseAttr);
         if (delta.fixedAttributeInfo(baseAttr.name.c_str(), deltaAttr)) {
-            const void *src = delta.fixedData<void>(deltaAttr);
-            base.setFixed(baseAttr, src);
+            mergeFixed(base, baseAttr, delta, deltaAttr);
         }
     }
 
@@ -539,8 +558,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         delta.fixedAttributeInfo(i, deltaAttr);
         if (!base.fixedAttributeInfo(deltaAttr.name.c_str(), baseAttr)) {
             baseAttr = base.addFixedAttribute(deltaAttr.name.c_str(), deltaAttr.type, deltaAttr.count);
-            const void *src = delta.fixedData<void>(deltaAttr);
-            base.setFixed(baseAttr, src);
+            mergeFixed(base, baseAttr, delta, deltaAttr);
         }
     }
 
-- 
2.43.0


From 797e178fac10bd9aed00d2838506b6314d5223ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:45 +0000
Subject: [PATCH 12/60] fix: GEO strings of any length are read

---
 src/lib/io/GEO.cpp | 35 ++++++++---------------------------
 1 file changed, 8 insertions(+), 27 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index f08a8b6..ad91169 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -65,38 +65,19 @@ void writeString(std::ostream& output,const char* s){
 
 string scanString(istream& input)
 {
-    // TODO: this code does not check for buf overrun
-    // TODO: this code doesn't properly check for FEOF condition
-    char buf[4096];
-    char *ptr=buf;
+    string result;
     char c;
-    while(input.good()){
-        input.get(c);
-        if(!isspace(c)) break;
-    }
-    if(!input.good()) return "";
-
+    if(!(input>>ws) || !input.get(c)) return result;
     if(c!='"'){
-        while(input.good()){
-            *ptr++=c;
-            input.get(c);
-            if(isspace(c)) break;
-        }
+        do result+=c;
+        while(input.get(c) && !isspace((unsigned char)c));
     }else{
-        while(input.good()){
-            input.get(c);
-            if(c=='\\'){
-                input.get(c);
-                *ptr++=c;
-            }else if(c=='"'){
-                break;
-            }else{
-                *ptr++=c;
-            }
+        while(input.get(c) && c!='"'){
+            if(c=='\\' && !input.get(c)) break;
+            result+=c;
         }
     }
-    *ptr++=0;
-    return string(buf);
+    return result;
 }
 
 ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::ostream* errorStream)
-- 
2.43.0


From e21f2605ee793a94ebdfbfce37943d0298a4fc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:45 +0000
Subject: [PATCH 13/60] fix: GEO files without point attributes are read

---
 src/lib/io/GEO.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index ad91169..047630c 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -100,10 +100,15 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         if(word=="NPoints") *input>>NPoints;
         else if(word=="NPointAttrib"){*input>>NPointAttrib;break;}
     }
-    // skip until PointAttrib
-    while(input->good()){
-        *input>>word;
-        if(word=="PointAttrib") break;
+    if(NPointAttrib>0){
+        // skip until PointAttrib
+        while(input->good()){
+            *input>>word;
+            if(word=="PointAttrib") break;
+        }
+    }else{
+        // no attribute descriptions: the points follow the rest of this line
+        getline(*input,word);
     }
     // read attribute descriptions
     int attrInfoRead = 0;
@@ -174,6 +179,9 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         *input>>fval;
         //cout<<"saw "<<posInternal[0]<<" "<<posInternal[1]<<" "<<posInternal[2]<<endl;
         
+        // the additional attributes, if there are any, are in parentheses
+        if (attrs.empty()) continue;
+
         // skip open paren
         char paren = 0;
         *input>> paren;
-- 
2.43.0


From 4db1aea63948b4eee58dd8064135ebb30b17eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:45 +0000
Subject: [PATCH 14/60] fix: GEO string attributes keep their arity

---
 src/lib/io/GEO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 047630c..7e6b4ca 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -126,7 +126,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
             if(errorStream) *errorStream<<"Partio: attr '"<<attrName<<"' of type index (string) found, treating as integer"<<endl;
             int nIndices=0;
             *input>>nIndices;
-            ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,1);
+            ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,nvals);
             attrs.push_back(attribute);
             for(int j=0;j<nIndices;j++){
                 string indexName;
-- 
2.43.0


From f9cb51a1ce13489ca0e9eb662ec4186c59704881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:45 +0000
Subject: [PATCH 15/60] fix: reading a GEO file with an unknown attribute type
 gives no set

---
 src/lib/io/GEO.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 7e6b4ca..b25fcb8 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -154,7 +154,8 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
             else if(attrType=="int") type=INT;
             else{
                 if(errorStream) *errorStream<<"Partio: unknown attribute "<<attrType<<" type... aborting"<<endl;
-                type=NONE;
+                simple->release();
+                return 0;
             }
             attrs.push_back(simple->addAttribute(attrName.c_str(),type,nvals));
             accessors.push_back(ParticleAccessor(attrs.back()));
-- 
2.43.0


From a92ffc610ce3522e0ade8f21f48e83add4502b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:45 +0000
Subject: [PATCH 16/60] fix: writing GEO reports a file that cannot be opened

---
 src/lib/io/GEO.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index b25fcb8..327b7d2 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -220,6 +220,10 @@ void writeType(ostream& output,const ParticlesData&,const ParticleAttribute& att
 bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if(!*output){
+        if(errorStream) *errorStream<<"Partio: Unable to open file "<<filename<<endl;
+        return false;
+    }
     *output<<"PGEOMETRY V5"<<endl;
     *output<<"NPoints "<<p.numParticles()<<" NPrims "<<1<<endl;
     *output<<"NPointGroups "<<0<<" NPrimGroups "<<0<<endl;
-- 
2.43.0


From 7624c13d79df6b31f99e3c59133b9f05d6e590c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:10 +0000
Subject: [PATCH 17/60] fix: reading a file that is not PDA as PDA reports it

---
 src/lib/io/PDA.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 33edab8..5e8e6ee 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -59,7 +59,10 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
     
     if(input->good()){
         *input>>word;
-        if(word!="ATTRIBUTES"){simple->release();return 0;}
+        if(word!="ATTRIBUTES"){
+            if(errorStream) *errorStream <<"Partio: "<<filename<<" is not a PDA file"<<endl;
+            simple->release();return 0;
+        }
     }
 
     vector<string> attrNames;
-- 
2.43.0


From e34d6f1aa5f7b9de1ead41f3e5834b4f7e09496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:10 +0000
Subject: [PATCH 18/60] fix: writing PDA reports a file that cannot be opened

---
 src/lib/io/PDA.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 5e8e6ee..b6233d3 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -140,6 +140,10 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
 bool writePDA(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if(!*output){
+        if(errorStream) *errorStream <<"Partio: Unable to open file "<<filename<<endl;
+        return false;
+    }
     *output<<"ATTRIBUTES"<<endl;
 
     vector<ParticleAttribute> attrs;
-- 
2.43.0


From ceda734a6963f20a0d49f591c243fa1317284c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:10 +0000
Subject: [PATCH 19/60] fix: PDA rows stay aligned when a set has attributes
 PDA cannot hold

---
 src/lib/io/PDA.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index b6233d3..17de8cc 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -148,15 +148,20 @@ bool writePDA(const char* filename,const ParticlesData& p,const bool compressed,
 
     vector<ParticleAttribute> attrs;
     for (int aIndex=0;aIndex<p.numAttributes();aIndex++){
-        attrs.push_back(ParticleAttribute());
-        p.attributeInfo(aIndex,attrs[aIndex]);
-        *output<<" "<<attrs[aIndex].name;
+        ParticleAttribute attr;
+        p.attributeInfo(aIndex,attr);
+        // the types PDA has fix the number of values of an attribute
+        if(attr.count!=(attr.type==VECTOR ? 3 : 1)){
+            if(errorStream) *errorStream <<"Partio: PDA attr '"<<attr.name<<"' with "<<attr.count<<" values not supported, skipping"<<endl;
+            continue;
+        }
+        attrs.push_back(attr);
+        *output<<" "<<attr.name;
     }
     *output<<endl;
 
-    // TODO: assert right count
     *output<<"TYPES"<<endl;
-    for (int aIndex=0;aIndex<p.numAttributes();aIndex++){
+    for (size_t aIndex=0;aIndex<attrs.size();aIndex++){
         switch(attrs[aIndex].type){
             case FLOAT: *output<<" R";break;
             case VECTOR: *output<<" V";break;
-- 
2.43.0


From f587b873c61e09dfd020de2a00c5510a78447ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:10 +0000
Subject: [PATCH 20/60] fix: writing RIB reports a file that cannot be opened

---
 src/lib/io/RIB.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/io/RIB.cpp b/src/lib/io/RIB.cpp
index 5d5da08..b1d14a6 100644
--- a/src/lib/io/RIB.cpp
+++ b/src/lib/io/RIB.cpp
@@ -33,6 +33,10 @@ using namespace std;
 bool writeRIB(const char* filename, const ParticlesData& p, const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if(!*output){
+        if(errorStream) *errorStream << "Partio: Unable to open file " << filename << endl;
+        return false;
+    }
     ParticleAttribute dummy;
     bool foundP     = p.attributeInfo("position",  dummy) || p.attributeInfo("P",     dummy);
     bool foundP2    = p.attributeInfo("position2", dummy) || p.attributeInfo("P2",    dummy);
-- 
2.43.0


From 066d1b1f093a820386b8459e18508e8da0a1d8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 21/60] fix: gzip headers with optional fields are skipped
 correctly

---
 src/lib/io/ZIP.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 5792b23..a9bfc9e 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -112,15 +112,15 @@ struct GZipFileHeader
     Read_Primitive(istream,os);
     unsigned char dummyByte;
     // read flags if necessary
-    if(flags&2){
-        unsigned short flgExtraLen;
+    if(flags&4){
+        unsigned short flgExtraLen=0;
         Read_Primitive(istream,flgExtraLen);
         for(int k=0;k<flgExtraLen;k++) Read_Primitive(istream,dummyByte);}
     // read filename/comment if present
-    int stringsToRead=((flags&8)?1:0) + ((flags&4)?1:0);
+    int stringsToRead=((flags&8)?1:0) + ((flags&16)?1:0);
     for(int i=0;i<stringsToRead;i++) 
         do{Read_Primitive(istream,dummyByte);}while(dummyByte!=0 && istream);
-    if(flags&1) Read_Primitive(istream,crc16);
+    if(flags&2) Read_Primitive(istream,crc16);
     if(!istream) {std::cerr<<"gzip: got to end of file after only reading gzip header"<<std::endl;return false;}
     return true;}
 
-- 
2.43.0


From a43de0d31a76213b9f1877883be55b87ca3a71f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 22/60] fix: reading a truncated gzip stream ends

---
 src/lib/io/ZIP.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index a9bfc9e..9dca068 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -283,7 +283,8 @@ public:
                 istream.read((char*)in,part_of_zip_file?std::min((unsigned int)buffer_size,header.compressed_size-total_read):(unsigned int)buffer_size);
                 strm.avail_in=static_cast<uInt>(istream.gcount());
                 total_read+=strm.avail_in;
-                strm.next_in=(Bytef*)in;}
+                strm.next_in=(Bytef*)in;
+                if(strm.avail_in==0) break;} // truncated file
             int ret=inflate(&strm,Z_NO_FLUSH); // decompress
             switch(ret){
                 case Z_STREAM_ERROR: 
-- 
2.43.0


From 050f9c53729ee912864bd368367b93039e0ac2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 23/60] fix: opening a compressed file for writing shows
 failure

---
 src/lib/io/ZIP.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 9dca068..117c773 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -596,6 +596,7 @@ std::ostream*
 Gzip_Out(const std::string& filename,std::ios::openmode mode)
 {
     std::ofstream* outfile=new std::ofstream(filename.c_str(),mode);
+    if(!*outfile) return outfile; // let the caller see the failure
     return new ZIP_FILE_OSTREAM(0,*outfile);
 }
 //#####################################################################
-- 
2.43.0


From 247b45fd64ae124e24ba36bb796b042793f75211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 24/60] fix: zip members without sizes in their local header
 are read

---
 src/lib/io/ZIP.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 117c773..ee8d4bc 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -248,8 +248,8 @@ class ZipStreambufDecompress:public std::streambuf
     static const unsigned short DEFLATE=8;
     static const unsigned short UNCOMPRESSED=0;
 public:
-    ZipStreambufDecompress(std::istream& stream,bool part_of_zip_file_input)
-        :istream(stream),total_read(0),total_uncompressed(0),part_of_zip_file(part_of_zip_file_input),valid(true)
+    ZipStreambufDecompress(std::istream& stream,const ZipFileHeader* central_header)
+        :istream(stream),total_read(0),total_uncompressed(0),part_of_zip_file(central_header!=0),valid(true)
     {
         strm.zalloc=Z_NULL;strm.zfree=Z_NULL;strm.opaque=Z_NULL;strm.avail_in=0;strm.next_in=Z_NULL;
         setg((char*)in,(char*)in,(char*)in);
@@ -257,6 +257,9 @@ public:
         // skip the header
         if(part_of_zip_file){
             valid=header.Read(istream,false);
+            // local headers need not have the sizes
+            header.compressed_size=central_header->compressed_size;
+            header.uncompressed_size=central_header->uncompressed_size;
             if(header.compression_type==DEFLATE) compressed_data=true;
             else if(header.compression_type==UNCOMPRESSED) compressed_data=false;
             else{
@@ -423,8 +426,8 @@ class ZIP_FILE_ISTREAM:public std::istream
 {
     ZipStreambufDecompress buf;
 public:
-    ZIP_FILE_ISTREAM(std::istream& istream,bool part_of_zip_file)
-        :std::istream(&buf),buf(istream,part_of_zip_file)
+    ZIP_FILE_ISTREAM(std::istream& istream,const ZipFileHeader* central_header)
+        :std::istream(&buf),buf(istream,central_header)
     {}
 
     virtual ~ZIP_FILE_ISTREAM()
@@ -562,7 +565,7 @@ std::istream* ZipFileReader::Get_File(const std::string& filename,const bool)
     std::map<std::string,ZipFileHeader*>::iterator i=filename_to_header.find(filename);
     if(i!=filename_to_header.end()){
         ZipFileHeader* header=i->second;
-        istream.seekg((*header).header_offset);return new ZIP_FILE_ISTREAM(istream,true);
+        istream.seekg((*header).header_offset);return new ZIP_FILE_ISTREAM(istream,header);
     }
     return 0;
 }
@@ -587,7 +590,7 @@ Gzip_In(const std::string& filename,std::ios::openmode mode)
     bool zipped=header.Read(*infile);
     infile->seekg(0);
     if(!zipped) return infile;
-    else return new ZIP_FILE_ISTREAM(*infile,false);
+    else return new ZIP_FILE_ISTREAM(*infile,0);
 }
 //#####################################################################
 // Function Gzip_Out
-- 
2.43.0


From 47cd28d266cb92b1e81fa9607d5f10c3ada08a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:37 +0000
Subject: [PATCH 25/60] fix: the zip end of central directory is found when
 members contain its signature

---
 src/lib/io/ZIP.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index ee8d4bc..7a6cec3 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -529,8 +529,11 @@ Find_And_Read_Central_Header()
     char *buf=new char[static_cast<unsigned int>(read_start)];
     istream.read(buf,read_start);
     int found=-1;
-    for(unsigned int i=0;i<read_start-3;i++){
-        if(buf[i]==0x50 && buf[i+1]==0x4b && buf[i+2]==0x05 && buf[i+3]==0x06){found=i;break;}}
+    for(int i=static_cast<int>(read_start)-static_cast<int>(read_size_before_comment);i>=0;i--){
+        if(buf[i]==0x50 && buf[i+1]==0x4b && buf[i+2]==0x05 && buf[i+3]==0x06){
+            // the comment after it must end with the file
+            int comment_size=(unsigned char)buf[i+20]|((unsigned char)buf[i+21]<<8);
+            if(i+static_cast<int>(read_size_before_comment)+comment_size==read_start){found=i;break;}}}
     delete [] buf;
     if(found==-1){std::cerr<<"ZIP: Failed to find zip header"<<std::endl;return false;}
     // seek to end of central header and read
-- 
2.43.0


From d22fedbcefda8416ef68d9db8ec5f3100580e0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 26/60] fix: skipping data in a BGEO file shares no buffer
 between threads

---
 src/lib/io/BGEO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index e3406d3..7421c7b 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -148,7 +148,7 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
 void skip(istream *input, size_t numChars)
 {
     static const size_t bufferSize = 4096;
-    static char buffer[bufferSize];
+    char buffer[bufferSize];
     while (numChars>0) {
         int toRead=std::min(numChars,bufferSize);
         input->read(buffer,toRead);
-- 
2.43.0


From b6c93f6bc4de08269a94bde6c5e143c6345af51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 27/60] fix: a BGEO attribute of an unsupported type does not
 leave a released set in use

---
 src/lib/io/BGEO.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 7421c7b..86674bf 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -130,13 +130,11 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
         }else if(houdiniType==2){
             if(errorStream) *errorStream <<"Partio: found attr of type 'string', aborting"<<endl;
             delete [] name;
-            simple->release();
-            return 0;
+            return false;
         }else{
             if(errorStream) *errorStream <<"Partio: unknown attribute "<<houdiniType<<" type... aborting"<<endl;
             delete [] name;
-            simple->release();
-            return 0;
+            return false;
         }
         delete[] name;
     }
@@ -163,7 +161,7 @@ bool skipPrimitives(int nPoints, int nPrims, int nPrimAttrib, istream* input,std
     vector<int> primAttrOffsets; // offsets in # of 32 bit offsets
     vector<DummyAttribute> primAttrHandles;
     vector<DummyAccessor> primAccessors;
-    getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, nPrimAttrib, input, 0, true, errorStream);
+    if(!getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, nPrimAttrib, input, 0, true, errorStream)) return false;
 
     for(int i=0;i<nPrims;i++) {
         int primType;
@@ -242,7 +240,10 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     attrOffsets.push_back(0); // pull values from byte offset
     attrHandles.push_back(simple->addAttribute("position",VECTOR,3)); // we always have one
     accessors.push_back(ParticleAccessor(attrHandles[0]));
-    getAttributes(particleSize, attrOffsets, attrHandles, accessors, nPointAttrib, input.get(), simple, headersOnly, errorStream);
+    if(!getAttributes(particleSize, attrOffsets, attrHandles, accessors, nPointAttrib, input.get(), simple, headersOnly, errorStream)){
+        simple->release();
+        return 0;
+    }
 
     if(headersOnly) {
         skip(input.get(),nPoints*particleSize*sizeof(int));
@@ -277,7 +278,7 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     vector<int> fixedAttrOffsets; // offsets in # of 32 bit offsets
     vector<FixedAttribute> fixedAttrHandles;
     vector<DummyAccessor> fixedAccessors;
-    getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, nAttrib, input.get(), simple, headersOnly, errorStream);
+    if(!getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, nAttrib, input.get(), simple, headersOnly, errorStream)) return simple;
 
     if (headersOnly) return simple;
 
-- 
2.43.0


From bbff7aa9a24c0de6f454d18c8c8acfec5dd4bc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:16 +0000
Subject: [PATCH 28/60] fix: truncated BGEO files are read without using unset
 values

---
 src/lib/io/BGEO.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 86674bf..419803b 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -84,13 +84,18 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
 {
     Helper<TAttribute> helper;
     for(int i=0;i<nAttrib;i++){
-        unsigned short nameLength;
+        unsigned short nameLength=0;
         read<BIGEND>(*input,nameLength);
         char* name=new char[nameLength+1];
         input->read(name,nameLength);name[nameLength]=0;
         unsigned short size;
         int houdiniType;
         read<BIGEND>(*input,size,houdiniType);
+        if(!*input){
+            if(errorStream) *errorStream <<"Partio: unexpected end of file in attribute descriptions"<<endl;
+            delete [] name;
+            return false;
+        }
         if(houdiniType==0 || houdiniType==1 || houdiniType==5){
             // read default values. don't do anything with them
             for(int i=0;i<size;i++) {
@@ -112,8 +117,8 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
             attrOffsets.push_back(particleSize);
             int numIndices=0;
             read<BIGEND>(*input,numIndices);
-            for(int ii=0;ii<numIndices;ii++){
-                unsigned short indexNameLength;
+            for(int ii=0;ii<numIndices && *input;ii++){
+                unsigned short indexNameLength=0;
                 read<BIGEND>(*input,indexNameLength);
                 char* indexName=new char[indexNameLength+1];;
                 input->read(indexName,indexNameLength);
@@ -147,7 +152,7 @@ void skip(istream *input, size_t numChars)
 {
     static const size_t bufferSize = 4096;
     char buffer[bufferSize];
-    while (numChars>0) {
+    while (numChars>0 && *input) {
         int toRead=std::min(numChars,bufferSize);
         input->read(buffer,toRead);
         numChars-=toRead;
@@ -164,10 +169,10 @@ bool skipPrimitives(int nPoints, int nPrims, int nPrimAttrib, istream* input,std
     if(!getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, nPrimAttrib, input, 0, true, errorStream)) return false;
 
     for(int i=0;i<nPrims;i++) {
-        int primType;
+        int primType=0;
         read<BIGEND>(*input,primType);
         if(primType==0x00008000) {
-            int size;
+            int size=0;
             read<BIGEND>(*input,size);
             if(nPoints>=(int)1<<16)
                 skip(input,size*sizeof(int));
@@ -206,7 +211,10 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     read<BIGEND>(*input,magic[0],magic[1],magic[2],magic[3]);
     read<BIGEND>(*input,versionChar,version,nPoints,nPrims,nPointGroups);
     read<BIGEND>(*input,nPrimGroups,nPointAttrib,nVertexAttrib,nPrimAttrib,nAttrib);
-
+    if(!*input){
+        if(errorStream) *errorStream<<"Partio: File '"<<filename<<"' is too short for a BGEO header"<<endl;
+        return 0;
+    }
 
     // Check header magic and version
     const char bgeo_magic[5]={'B','g','e','o',0};
@@ -249,7 +257,7 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
         skip(input.get(),nPoints*particleSize*sizeof(int));
     } else {
         // Read the points
-        int *buffer=new int[particleSize];
+        int *buffer=new int[particleSize]();
 
         // make iterator and register accessors
         ParticlesDataMutable::iterator iterator=simple->begin();
@@ -283,7 +291,7 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     if (headersOnly) return simple;
 
     // Read the points
-    int *fixedBuffer=new int[particleSize];
+    int *fixedBuffer=new int[particleSize]();
     input->read((char*)fixedBuffer,particleSize*sizeof(int));
     for(unsigned int attrIndex=0;attrIndex<fixedAttrHandles.size();attrIndex++){
         FixedAttribute& handle=fixedAttrHandles[attrIndex];
-- 
2.43.0


From f550032456893b615093bd182da39f2334c42257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:26 +0000
Subject: [PATCH 29/60] fix: copies of string tables that repeat a string keep
 their tokens

---
 src/lib/core/IndexedStrs.h | 31 +++++++++++++++++++++++++++++++
 src/lib/core/Particle.cpp  |  7 ++++---
 src/lib/io/BGEO.cpp        |  5 +++--
 src/lib/io/GEO.cpp         |  3 ++-
 4 files changed, 40 insertions(+), 6 deletions(-)
 create mode 100644 src/lib/core/IndexedStrs.h

diff --git a/src/lib/core/IndexedStrs.h b/src/lib/core/IndexedStrs.h
new file mode 100644
index 0000000..fedc349
--- /dev/null
+++ b/src/lib/core/IndexedStrs.h
@@ -0,0 +1,31 @@
+#ifndef _IndexedStrs_h_
+#define _IndexedStrs_h_
+
+#include "../Partio.h"
+#include <string>
+
+namespace Partio{
+
+//! Adds str as the next token of the attribute's string table even if the table already
+//! has it (tables may repeat a string after setIndexedStr), so a copied table keeps its tokens.
+inline int appendIndexedStr(ParticlesDataMutable& p,const ParticleAttribute& attr,const char* str)
+{
+    const int token=static_cast<int>(p.indexedStrs(attr).size());
+    std::string unique(str);
+    while(p.registerIndexedStr(attr,unique.c_str())!=token) unique+='~';
+    if(unique!=str) p.setIndexedStr(attr,token,str);
+    return token;
+}
+
+//! Same for a fixed attribute
+inline int appendIndexedStr(ParticlesDataMutable& p,const FixedAttribute& attr,const char* str)
+{
+    const int token=static_cast<int>(p.fixedIndexedStrs(attr).size());
+    std::string unique(str);
+    while(p.registerFixedIndexedStr(attr,unique.c_str())!=token) unique+='~';
+    if(unique!=str) p.setFixedIndexedStr(attr,token,str);
+    return token;
+}
+
+}
+#endif
diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index f5bbb1d..bee2f60 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -37,6 +37,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 #endif
 #define __STDC_LIMIT_MACROS
 #include <PartioVec3.h>
+#include "IndexedStrs.h"
 #include "ParticleSimple.h"
 #include "ParticleSimpleInterleave.h"
 #include <iostream>
@@ -121,7 +122,7 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
         if (srcFixedAttr.type == Partio::INDEXEDSTR) {
             const std::vector<std::string>& values = other.fixedIndexedStrs(srcFixedAttr);
             for (int j = 0, jend = values.size(); j < jend; ++j) {
-                p->registerFixedIndexedStr(dstFixedAttr, values[j].c_str());
+                appendIndexedStr(*p, dstFixedAttr, values[j].c_str());
             }
         }
         // Copy fixed data
@@ -149,7 +150,7 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
         if (srcAttr.type == Partio::INDEXEDSTR) {
             const std::vector<std::string>& values = other.indexedStrs(srcAttr);
             for (int m = 0, mend = values.size(); m < mend; ++m) {
-                p->registerIndexedStr(dstAttr, values[m].c_str());
+                appendIndexedStr(*p, dstAttr, values[m].c_str());
             }
         }
         size_t size = Partio::TypeSize(srcAttr.type) * srcAttr.count;
@@ -354,7 +355,7 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
             if (attr.type == Partio::INDEXEDSTR) {
                 const std::vector<std::string>& strings = particles->indexedStrs(attr);
                 for (size_t j=0; j<strings.size(); j++) {
-                    cluster->registerIndexedStr(clusterAttributes.back(),strings[j].c_str());
+                    appendIndexedStr(*cluster,clusterAttributes.back(),strings[j].c_str());
                 }
             }
             if (attr.name == "position") {
diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 419803b..1aee305 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -35,6 +35,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 
 #include "PartioEndian.h"
 #include "../core/ParticleHeaders.h"
+#include "../core/IndexedStrs.h"
 #include "io.h"
 
 namespace Partio
@@ -58,13 +59,13 @@ template<>
 struct Helper<ParticleAttribute>
 {
     ParticleAttribute addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size) {return simple->addAttribute(name,type,size);}
-    int registerIndexedStr(ParticlesDataMutable* simple, const ParticleAttribute& attribute,const char* str) {return simple->registerIndexedStr(attribute,str);}
+    int registerIndexedStr(ParticlesDataMutable* simple, const ParticleAttribute& attribute,const char* str) {return appendIndexedStr(*simple,attribute,str);}
 };
 template<>
 struct Helper<FixedAttribute>
 {
     FixedAttribute addAttribute(ParticlesDataMutable* simple, const char* name, ParticleAttributeType type, int size) {return simple->addFixedAttribute(name,type,size);}
-    int registerIndexedStr(ParticlesDataMutable* simple, const FixedAttribute& attribute,const char* str) {return simple->registerFixedIndexedStr(attribute,str);}
+    int registerIndexedStr(ParticlesDataMutable* simple, const FixedAttribute& attribute,const char* str) {return appendIndexedStr(*simple,attribute,str);}
 };
 
 class DummyAttribute {};
diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 327b7d2..8509802 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -34,6 +34,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 */
 
 #include "../core/ParticleHeaders.h"
+#include "../core/IndexedStrs.h"
 #include "io.h"
 
 namespace Partio
@@ -133,7 +134,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
                 //*input>>indexName;
                 indexName=scanString(*input);
                 if (!headersOnly) {
-                    int id=simple->registerIndexedStr(attribute,indexName.c_str());
+                    int id=appendIndexedStr(*simple,attribute,indexName.c_str());
                     if(id != j){
                         if(errorStream) *errorStream<<"Partio: error on read, expected registerIndexStr to return index "<<j<<" but got "<<id<<" for string "<<indexName<<endl;
                     }
-- 
2.43.0


From 98c60a914b198df793adf1aec2860ccda8c65e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 30/60] fix: 32-bit PDB files are detected

---
 src/lib/io/PDB.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index a296535..1758400 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -259,6 +259,7 @@ ParticlesDataMutable* readPDB(const char* filename,const bool headersOnly,std::o
     }
     // Read header and add as many particles as found
     PDB_POLICY<64>::HEADER header;
+    header.magic=0;
     input->read((char*)&header,sizeof(header));
     if(header.magic != PDB_MAGIC){
         if(errorStream) *errorStream <<"Partio: failed to get PDB magic"<<endl;
@@ -269,7 +270,11 @@ ParticlesDataMutable* readPDB(const char* filename,const bool headersOnly,std::o
     PDB_POLICY<64>::CHANNEL_IO channelIOHeader;
     input->read((char*)&channelIOHeader,sizeof(channelIOHeader));
     //cout<<"we got channel io as "<<int(channelIOHeader.type)<<" swap is "<<channelIOHeader.swap<<endl;
-    if(channelIOHeader.type > 5  || channelIOHeader.type < 0 || (channelIOHeader.swap != 1 && channelIOHeader.swap != 0)){
+    // The padding and null pointers of a 32-bit file look like such a header too, but are no channel with a valid type.
+    PDB_POLICY<64>::CHANNEL channelHeader;
+    input->read((char*)&channelHeader,sizeof(channelHeader));
+    if(!*input || channelIOHeader.type > 5  || channelIOHeader.type < 0 || (channelIOHeader.swap != 1 && channelIOHeader.swap != 0)
+        || channelHeader.type < PDB_VECTOR || channelHeader.type > PDB_POINTERT){
         return readPDBHelper<32>(filename,headersOnly,errorStream);
     }else{
         return readPDBHelper<64>(filename,headersOnly,errorStream);
-- 
2.43.0


From 8d4efe1dff7f726ed515d5ad5d2d6f95d81179bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:12 +0000
Subject: [PATCH 31/60] fix: truncated PDB files are read without using unset
 values

---
 src/lib/io/PDB.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index 1758400..1ca0b6f 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -98,8 +98,9 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
     typename PDB_POLICY<bits>::HEADER header;
 
     input->read((char*)&header,sizeof(typename PDB_POLICY<bits>::HEADER));
-    if(header.magic != PDB_MAGIC){
+    if(!*input || header.magic != PDB_MAGIC){
         if(errorStream) *errorStream<<"Partio: failed to get PDB magic"<<endl;
+        simple->release();
         return 0;
     }
 
@@ -119,7 +120,11 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
 
         typename PDB_POLICY<bits>::CHANNEL_DATA channelData;
         input->read((char*)&channelData,sizeof(channelData));
-
+        if(!*input){
+            if(errorStream) *errorStream<<"Partio: unexpected end of file in channel '"<<name<<"'"<<endl;
+            simple->release();
+            return 0;
+        }
         
         ParticleAttributeType type;
         switch(channelHeader.type){
-- 
2.43.0


From fa4c1928802c5f045dd0734af4e1b7821cc72073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:39 +0000
Subject: [PATCH 32/60] fix: headers of compressed PDC files are read

---
 src/lib/io/PDC.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index baf466c..bb065d0 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -104,7 +104,8 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
 
         // if headersOnly, skip
         if(headersOnly){
-            input->seekg((int)input->tellg() + header.numParticles*sizeof(double)*attr.count);
+            // seekg doesn't work with gzip
+            input->ignore((std::streamsize)header.numParticles*sizeof(double)*attr.count);
             continue;
         }
         else{
-- 
2.43.0


From 9627aa9abed7c2229399551b8fedf49c18e24bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:39 +0000
Subject: [PATCH 33/60] fix: PDC files hold the values of integers, not their
 bits as floats

---
 src/lib/io/PDC.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index bb065d0..cd7b307 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -155,9 +155,12 @@ bool writePDC(const char* filename,const ParticlesData& p,const bool compressed,
 
         // write data
         for(int partIndex = 0; partIndex < p.numParticles(); partIndex++){
-            const float* data = p.data<float>(attr, partIndex);
+            const bool isInt = attr.type == INT || attr.type == INDEXEDSTR;
             for(int dim = 0; dim < count; dim++){
-                write<BIGEND>(*output, (double)data[dim]);
+                double value = 0;
+                if(dim < attr.count)
+                    value = isInt ? (double)p.data<int>(attr, partIndex)[dim] : (double)p.data<float>(attr, partIndex)[dim];
+                write<BIGEND>(*output, value);
             }
         }
     }
-- 
2.43.0


From f21c413a2aed42c82bcfc8b08aff66d11345160d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:39 +0000
Subject: [PATCH 34/60] fix: truncated PDC files are read without using unset
 values

---
 src/lib/io/PDC.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index cd7b307..4705865 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -76,9 +76,9 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
         return 0;
     }
 
-    PDC_HEADER header;
+    PDC_HEADER header = {};
     input->read((char*)&header, sizeof(header));
-    if(PDC_MAGIC != header.magic){
+    if(!*input || PDC_MAGIC != header.magic){
         if(errorStream) *errorStream << "Partio: Magic number '" << header.magic << "' of '" << filename << "' doesn't match pdc magic '" << PDC_MAGIC << "'" << std::endl;
         return 0;
     }
@@ -93,8 +93,13 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
         // add attribute
         ParticleAttribute attr;
         string attrName = readName(*input);
-        int type;
+        int type = 0;
         read<BIGEND>(*input, type);
+        if(!*input){
+            if(errorStream) *errorStream << "Partio: Unexpected end of file " << filename << std::endl;
+            simple->release();
+            return 0;
+        }
         if(type == 3){
             attr = simple->addAttribute(attrName.c_str(), FLOAT, 1);
         }
@@ -109,7 +114,7 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
             continue;
         }
         else{
-            double tmp[3];
+            double tmp[3] = {0, 0, 0};
             for(int partIndex = 0; partIndex < simple->numParticles(); partIndex++){
                 for(int dim = 0; dim < attr.count; dim++){
                     read<BIGEND>(*input, tmp[dim]);
-- 
2.43.0


From 635001c13bc81f0e703aa9aa77d5c2b4938cdfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:20 +0000
Subject: [PATCH 35/60] fix: PRT particles whose last channel has several
 values are read whole

---
 src/lib/io/PRT.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index cde7e1f..fe87f7a 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -219,11 +219,11 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
             ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,ch.arity);
             chans.push_back(ch);
             attrs.push_back(attrHandle);
+
+            // The size of the particle is determined from the channel with largest offset. The channels are not required to be listed in order.
+            particleSize = (std::max)( particleSize, ch.offset + sizes[ch.type] * ch.arity );
         }
         
-        // The size of the particle is determined from the channel with largest offset. The channels are not required to be listed in order.
-        particleSize = (std::max)( particleSize, chans.back().offset + sizes[ch.type] );
-        
         // The channel entry might have more data in other PRT versions.
         if ((unsigned)channelsize > sizeof(Channel))
             input->seekg(channelsize - sizeof(Channel), std::ios::cur);
-- 
2.43.0


From 1497425d539b48cbd5f14864597e6864e2c5d17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:20 +0000
Subject: [PATCH 36/60] fix: PRT files count only the channels written

---
 src/lib/io/PRT.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index fe87f7a..abeeaa3 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -363,7 +363,13 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
         int reserve = 4;
         output->write((char*)&header,sizeof(FileHeadder));
         write<LITEND>(*output, reserve);
-        write<LITEND>(*output, (int)p.numAttributes());
+        int numChannels = 0; // strings are not written
+        for (int i=0;i<p.numAttributes();i++) {
+            ParticleAttribute attr;
+            p.attributeInfo(i,attr);
+            if ((attr.type==FLOAT || attr.type==INT || attr.type==VECTOR) && attr.count>0) numChannels++;
+        }
+        write<LITEND>(*output, numChannels);
             reserve = 0x2c;
         write<LITEND>(*output, reserve);
 
-- 
2.43.0


From 9772d7f4180dbe99648102455ce5083d6c9768d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:20 +0000
Subject: [PATCH 37/60] fix: PRT channel names stay in their field

---
 src/lib/io/PRT.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index abeeaa3..85256a4 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -215,7 +215,7 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
                 ch.name[0] += 0x20;
             }
 #endif
-            std::string name((char*)ch.name);
+            std::string name((char*)ch.name, strnlen((char*)ch.name, sizeof(ch.name)));
             ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,ch.arity);
             chans.push_back(ch);
             attrs.push_back(attrHandle);
@@ -380,7 +380,8 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
             p.attributeInfo(i,attr);
             Channel ch;
             memset(&ch, 0, sizeof(Channel));
-                    memcpy((char*)ch.name, attr.name.c_str(), attr.name.size());
+            // the name is terminated, so 31 characters at most
+            memcpy((char*)ch.name, attr.name.c_str(), (std::min)(attr.name.size(), sizeof(ch.name)-1));
             ch.offset = offset;
             switch (attr.type) {
             case FLOAT: ch.type=4; ch.arity=attr.count; offset += sizeof(float)*attr.count; break;
-- 
2.43.0


From 832c078256ff2aedd046bcf77e8f989edc6a3d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:20 +0000
Subject: [PATCH 38/60] fix: truncated PRT files are read without using unset
 values

---
 src/lib/io/PRT.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index 85256a4..8216f2a 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -111,11 +111,11 @@ static bool read_buffer(std::istream& is, z_stream& z, char* in_buf, void* p, si
         }
         int ret = inflate( &z, Z_BLOCK  );
         if ( ret != Z_OK && ret != Z_STREAM_END ) {
-            if(errorStream) *errorStream<<"Zlib error "<<z.msg<<std::endl;;
+            if(errorStream) *errorStream<<"Zlib error "<<(z.msg ? z.msg : "")<<std::endl;;
             return false;
         }
         if (ret == Z_STREAM_END && z.avail_out > 0) {
-            std::cerr<<"Truncated prt file  "<<std::endl;;
+            if(errorStream) *errorStream<<"Truncated prt file  "<<std::endl;;
             return false;
         }
     }
@@ -158,8 +158,9 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     FileHeadder header;
     input->read((char*)&header,sizeof(FileHeadder));
 
-    if (memcmp(header.magic, magic, sizeof(magic))) {
+    if (!*input || memcmp(header.magic, magic, sizeof(magic))) {
         if(errorStream) *errorStream<<"Partio: failed to get PRT magic"<<std::endl;
+        simple->release();
         return 0;
     }
     
@@ -174,6 +175,12 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     read<LITEND>(*input,channels);		// number of channel
     read<LITEND>(*input,channelsize);	// size of channel
 
+    if (!*input) {
+        if(errorStream) *errorStream<<"Partio: Unexpected end of file "<<filename<<std::endl;
+        simple->release();
+        return 0;
+    }
+
     simple->addParticles((int)header.numParticles);
 
     std::vector<Channel> chans;
@@ -184,6 +191,11 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     for (int i=0; i<channels; i++) {
         Channel ch;
         input->read((char*)&ch, sizeof(Channel));
+        if (!*input) {
+            if(errorStream) *errorStream<<"Partio: Unexpected end of file "<<filename<<std::endl;
+            simple->release();
+            return 0;
+        }
         ParticleAttributeType type=NONE;
         switch (ch.type) {
         case 0:	// int16
@@ -246,7 +258,7 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
 
     for (unsigned int particleIndex=0;particleIndex<(unsigned int )simple->numParticles();particleIndex++) {
         // Read the particle from the file, and decompress it into a single particle-sized buffer.
-        read_buffer(*input, z, (char*)in_buf, prt_buf, particleSize, errorStream);
+        if (!read_buffer(*input, z, (char*)in_buf, prt_buf, particleSize, errorStream)) break;
         
         for (unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++) {
             if (attrs[attrIndex].type==Partio::INT) {
-- 
2.43.0


From 1a3da27075ae195a89fe26bb55bf7dd54de28f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:01 +0000
Subject: [PATCH 39/60] fix: PTC files do not hold string tokens as float bits

---
 src/lib/io/PTC.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 3448d6f..e7ea96a 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -291,17 +291,18 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
         ParticleAttribute attr;
         p.attributeInfo(i,attr);
         if(attr.name!="position" && attr.name!="radius" && attr.name!="normal"){
-            if(attr.count==3 && attr.type!=INT){
+            const bool isFloat=attr.type==FLOAT || attr.type==VECTOR;
+            if(attr.count==3 && isFloat){
                 attrs.push_back(attr);
                 specs.push_back("color "+attr.name+"\n");
                 dataSize+=attr.count;
                 nVars++;
-            }else if(attr.count==1 && attr.type!=INT){
+            }else if(attr.count==1 && isFloat){
                 attrs.push_back(attr);
                 dataSize+=attr.count;
                 nVars++;
                 specs.push_back("float "+attr.name+"\n");
-            }else if(attr.count==16 && attr.type!=INT){
+            }else if(attr.count==16 && isFloat){
                 nVars++;
                 attrs.push_back(attr);
                 dataSize+=attr.count;
-- 
2.43.0


From c9d02b5bb2506c65b353e457cb794f7ef6d1a98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:01 +0000
Subject: [PATCH 40/60] fix: PTC normals of very small or large size keep their
 direction

---
 src/lib/io/PTC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index e7ea96a..2589ff0 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -333,7 +333,7 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
 	int phi, z;
 	if (n[0] == 0 && n[1] == 0 && n[2] == 0) phi = z = 65535;
 	else {
-            float mag_squared=n[0]*n[0]+n[1]*n[1]+n[2]*n[2];
+            double mag_squared=(double)n[0]*n[0]+(double)n[1]*n[1]+(double)n[2]*n[2]; // no over- or underflow
 	    phi = int((atan2(n[0], n[1]) * (1/(2*M_PI)) + 0.5) * 65535 + 0.5);
 	    z = std::min(int((n[2]/sqrt(mag_squared)+1)/2 * 65535 + 0.5), 65535);
             // phi is redundent when z == 65535; avoid the special value.
-- 
2.43.0


From 5c72047979b8678e68ff98a643464a2835ef5e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:01 +0000
Subject: [PATCH 41/60] fix: truncated PTC files are read without using unset
 values

---
 src/lib/io/PTC.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 2589ff0..63d2150 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -69,9 +69,9 @@ bool ParseSpec(const string& spec,string& typeName,string& name)
     // TODO: make more robust
     const char* s=spec.c_str();
     typeName="";name="";
-    while(*s!=' ') typeName+=*s++;
+    while(*s && *s!=' ') typeName+=*s++;
     while(*s==' ') s++;
-    while(*s!='\n') name+=*s++;
+    while(*s && *s!='\n') name+=*s++;
     return true;
 }
 
@@ -83,7 +83,7 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
         return 0;
     }
 
-    int magic;
+    int magic=0;
     read<LITEND>(*input,magic);
     if(ptc_magic!=magic){
         if(errorStream) *errorStream <<"Partio: Magic number '"<<magic<<"' of '"<<filename<<"' doesn't match pptc magic '"<<ptc_magic<<"'"<<endl;
@@ -124,6 +124,10 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
 
     int nVars,dataSize;
     read<LITEND>(*input,nVars,dataSize);
+    if(!*input){
+        if(errorStream) *errorStream <<"Partio: '"<<filename<<"' is too short for a ptc header"<<endl;
+        return 0;
+    }
 
     // Allocate a simple particle with the appropriate number of points
     ParticlesDataMutable* simple=0;
@@ -142,6 +146,11 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     int parsedSize=0;
     for(int chanNum=0;chanNum<nVars;chanNum++){
         ParseSpec(GetString(*input,'\n'),typeName,name);
+        if(!*input){
+            if(errorStream) *errorStream <<"Partio: unexpected end of file "<<filename<<endl;
+            simple->release();
+            return 0;
+        }
 
         int dataSize=0;
         ParticleAttributeType dataType;
@@ -195,7 +204,7 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
         float* pos=simple->dataWrite<float>(positionHandle,pointIndex);
         read<LITEND>(*input,pos[0],pos[1],pos[2]);
 
-        unsigned short phi,z; // normal encoded
+        unsigned short phi=0,z=0; // normal encoded
         read<LITEND>(*input,phi,z);
         float* norm=simple->dataWrite<float>(normalHandle,pointIndex);
 
-- 
2.43.0


From e080aa3557747ada95bc9bb988a89555f00b8103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:33 +0000
Subject: [PATCH 42/60] fix: BIN files can be compressed

---
 src/lib/io/BIN.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/BIN.cpp b/src/lib/io/BIN.cpp
index 326e6dc..9615e33 100644
--- a/src/lib/io/BIN.cpp
+++ b/src/lib/io/BIN.cpp
@@ -84,7 +84,7 @@ typedef struct{
 
 ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::ostream* errorStream){
 
-    unique_ptr<istream> input(io::read(filename));
+    unique_ptr<istream> input(io::unzip(filename));
     if(!*input){
         if(errorStream) *errorStream << "Partio: Unable to open file " << filename << endl;
         return 0;
@@ -266,9 +266,9 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
     return simple;
 }
 
-bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compressed*/,std::ostream* errorStream)
+bool writeBIN(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
-    unique_ptr<ostream> output(io::write(filename));
+    unique_ptr<ostream> output(io::write(filename, compressed));
     if (!*output) {
         if(errorStream) *errorStream<<"Partio Unable to open file "<<filename<<endl;
         return false;
-- 
2.43.0


From 562691834e458a8042026626b322e04003c866c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:33 +0000
Subject: [PATCH 43/60] fix: a file that is not BIN is reported before its
 fields are used

---
 src/lib/io/BIN.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib/io/BIN.cpp b/src/lib/io/BIN.cpp
index 9615e33..048fcb1 100644
--- a/src/lib/io/BIN.cpp
+++ b/src/lib/io/BIN.cpp
@@ -92,6 +92,15 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
 
     BIN_HEADER header;
     input->read((char*)&header, sizeof(BIN_HEADERV6));
+    if(!*input){
+        if(errorStream) *errorStream << "Partio: '" << filename << "' is too short for a BIN header" << endl;
+        return 0;
+    }
+
+    if(BIN_MAGIC != header.verificationCode){
+        if(errorStream) *errorStream<< "Partio: Magic number '" << hex<<  header.verificationCode << "' of '" << filename << "' doesn't match BIN magic '" << BIN_MAGIC << "'" << dec << endl;
+        return 0;
+    }
 
     // According to the NextLimit bin_particles_file_format.pdf file
     if (header.version >= 7)
@@ -103,12 +112,7 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
 
     // After version 13, we don't know what to do
     if(header.version > 13){
-        cerr << "Partio: Unknown .bin version : " << header.version << endl;
-        return 0;
-    }
-
-    if(BIN_MAGIC != header.verificationCode){
-        if(errorStream) *errorStream<< "Partio: Magic number '" << hex<<  header.verificationCode << "' of '" << filename << "' doesn't match BIN magic '" << BIN_MAGIC << "'" << endl;
+        if(errorStream) *errorStream << "Partio: Unknown .bin version : " << header.version << endl;
         return 0;
     }
 
-- 
2.43.0


From cadae646d7c63a122384c054fbb54824b5b3d9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:10 +0000
Subject: [PATCH 44/60] fix: PTS colors are taken from the last three columns

---
 src/lib/io/PTS.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 6c437de..08a8cb7 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -222,9 +222,10 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 					if (attrs[attrIndex].name == "pointColor")
 					{
 						// 8 bit color  conversion
-						data[0]=lineData[4]/255;
-						data[1]=lineData[5]/255;
-						data[2]=lineData[6]/255;
+						// the last three values of the line
+						data[0]=lineData[valcount-3]/255;
+						data[1]=lineData[valcount-2]/255;
+						data[2]=lineData[valcount-1]/255;
 					}
 					else if (attrs[attrIndex].name == "position")
 					{
-- 
2.43.0


From a6bc3329511d649250c94ff17552d8afd0ce30f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:10 +0000
Subject: [PATCH 45/60] fix: PTS lines of any length, compressed PTS files and
 PTS reads in several threads work

---
 src/lib/io/PTS.cpp | 54 +++++++++++-----------------------------------
 1 file changed, 13 insertions(+), 41 deletions(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 08a8cb7..2fd18de 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -73,35 +73,17 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
     /// FORMAT  is  up to 8 elements  space delimited { posX posY posZ  remission quality  red green blue }
     // since there's no header data to parse we're just going to hard code this
 
-    /* Start from the beginning */
-	input->seekg(0,ios::beg);
-
     /* Determine amount of values per line */
-    char line[1024];
     /* Jump over first line. */
-	input->getline(line,1024);
-    input->getline(line,1024);
+    string line;
+    getline(*input,line);
+    getline(*input,line);
     int valcount = 0;
-#ifdef PARTIO_WIN32
-	char * nextLine = NULL;
-    char * pch = strtok_s( line, "\t ", &nextLine );
-#else
-	char * pch = strtok( line, "\t " );
-#endif
-    while ( pch )
     {
-        if ( *pch != 0 && *pch != '\n' )
-		{
-            valcount++;
-        }
-#ifdef PARTIO_WIN32
-        pch = strtok_s( NULL, "\t ", &nextLine );
-#else
-		pch = strtok( NULL, "\t " );
-#endif
+        stringstream ss(line);
+        while (ss >> word) valcount++;
     }
 
-
     switch ( valcount )
 	{
 		case 3:  // position only
@@ -150,37 +132,25 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 		break;
 		default:
 		{
+			if(errorStream) *errorStream<<"Partio: "<<filename<<" has no PTS data"<<endl;
+			simple->release();
 			return 0;
 		}
 		break;
 
     }
 
-    input->seekg(0,ios::beg);
-
     unsigned int num=0;
     simple->addParticles(num);
     if (headersOnly) return simple; // escape before we try to touch data
 
-    if (input->good())
-    { // garbage count at top of  file
-		char junk[1024];
-        input->getline(junk,1024);
-    }
-
-    // Read actual particle data
-    if (!input->good()) {
-        simple->release();
-        return 0;
-    }
-
     // we have to read line by line, because data is not  clean and consistent so we skip any lines that dont' conform
+    // (the stream cannot go back if it is compressed, so we start with the line we have)
 
-    for (unsigned int particleIndex=0;input->good();)
+    unsigned int particleIndex=0;
+    do
     {
         string token = "";
-        char line[1024];
-        input->getline(line, 1024);
 
         stringstream ss(line);
 
@@ -190,9 +160,10 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
         while (ss >> token)
         {
             stringstream foo(token);
+            foo.imbue(std::locale::classic());
             float x;
             foo >> x;
-			lineData[i] = x;
+            if (i < 8) lineData[i] = x;
             i++;
         }
 
@@ -244,6 +215,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
             particleIndex++;
         }
     }
+    while (getline(*input,line));
     return simple;
 }
 
-- 
2.43.0


From 6b6d583720f9ef7c61c05b8e5bd9fb3b5a0fe8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:54 +0000
Subject: [PATCH 46/60] fix: truncated MC files and unterminated MC names are
 read within bounds

---
 src/lib/io/MC.cpp | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/src/lib/io/MC.cpp b/src/lib/io/MC.cpp
index 82b5278..c3ef40e 100644
--- a/src/lib/io/MC.cpp
+++ b/src/lib/io/MC.cpp
@@ -50,17 +50,11 @@ using namespace std;
 // TODO: convert this to use iterators like the rest of the readers/writers
 
 std::string GetString(std::istream& input, unsigned int size){
-    char* tmp = new char [size];
-    input.read(tmp, size);
-    std::string result(tmp);
-
-    // fix read tag error (ex: DBLA --> DBLAi, why !!)
-    if(result.size() > size){
-        result.resize(size);
-    }
-
-    delete [] tmp;
-    return result;
+    // the field is not terminated when the string fills it
+    std::string result;
+    char c;
+    for(unsigned int i = 0; i < size && input.get(c); i++) result += c;
+    return result.substr(0, result.find('\0'));
 }
 
 typedef struct{
@@ -75,8 +69,9 @@ bool ReadAttrHeader(std::istream& input, Attribute_Header& attribute){
     char tag[4];
     input.read(tag, 4); // CHNM
 
-    int chnmSize;
+    int chnmSize = 0;
     read<BIGEND>(input, chnmSize);
+    if(!input || chnmSize < 0) return false;
     if(chnmSize%4 > 0){
         chnmSize = chnmSize - chnmSize%4 + 4;
     }
@@ -93,7 +88,7 @@ bool ReadAttrHeader(std::istream& input, Attribute_Header& attribute){
 
     read<BIGEND>(input, attribute.blocksize);
 
-    return true;
+    return bool(input);
 }
 
 int CharArrayLen(char** charArray){
@@ -130,7 +125,7 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         return 0;
     }
 
-    int magic;
+    int magic = 0;
     read<BIGEND>(*input, magic);
     if(MC_MAGIC != magic){
         if(errorStream) *errorStream  << "Partio: Magic number '" << magic << "' of '" << filename << "' doesn't match mc magic '" << MC_MAGIC << "'" << std::endl;
@@ -149,7 +144,7 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
     char tag[4];
     input->read(tag, 4); // FOR4
 
-    int blockSize;
+    int blockSize = 0;
     read<BIGEND>(*input, blockSize);
 
     // Allocate a simple particle with the appropriate number of points
@@ -163,9 +158,9 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
 
     int numParticles = 0;
     input->read(tag, 4); // MYCH
-    while(((int)input->tellg()-HEADER_SIZE) < blockSize){
+    while(*input && ((int)input->tellg()-HEADER_SIZE) < blockSize){
         Attribute_Header attrHeader;
-        ReadAttrHeader(*input, attrHeader);
+        if(!ReadAttrHeader(*input, attrHeader)) break;
 
         if(attrHeader.name == std::string("id")){
             numParticles = attrHeader.numParticles;
@@ -208,11 +203,12 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         return simple;
     }
     //cout << "==============================================================" << endl;
+    input->clear();
     input->seekg(HEADER_SIZE);
     input->read(tag, 4); // MYCH
-    while((int)input->tellg()-HEADER_SIZE < blockSize){
+    while(*input && (int)input->tellg()-HEADER_SIZE < blockSize){
         Attribute_Header attrHeader;
-        ReadAttrHeader(*input, attrHeader);
+        if(!ReadAttrHeader(*input, attrHeader)) break;
 
         if(attrHeader.blocksize/sizeof(double) == 1){ // for who ?
             input->seekg((int)input->tellg() + attrHeader.blocksize);
@@ -235,7 +231,7 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
 			{
 				for (int i = 0; i < simple->numParticles(); i++)
 				{
-                double tmp;
+                double tmp = 0;
                 read<BIGEND>(*input, tmp);
                 int* data = simple->dataWrite<int>(attrHandle, i);
                 data[0] = (int)tmp;
-- 
2.43.0


From b347b73c7a24ee167a71b8c0b6d1509b6c561bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:55 +0000
Subject: [PATCH 47/60] fix: a missing file prints nothing when verbose is off

---
 src/lib/io/ZIP.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 7a6cec3..0d2df73 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -97,10 +97,7 @@ struct GZipFileHeader
 
     bool Read(std::istream& istream)
     {Read_Primitive(istream,magic0);
-    if (istream.eof() || istream.fail() || istream.bad()) {
-        std::cerr << "Bad file attempting to read header" << std::endl;
-        return false;
-    }
+    if (istream.eof() || istream.fail() || istream.bad()) return false;
     Read_Primitive(istream,magic1);
     if(magic0 != 0x1f || magic1 != 0x8b){//std::cerr<<"gzip: did not find gzip magic 0x1f 0x8b"<<std::endl;
         return false;}
-- 
2.43.0


From 8c7d798f884ebdfc1edd48758a408aca9eac97d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:55 +0000
Subject: [PATCH 48/60] fix: Python clone and cloneSchema accept calls without
 an attribute map

---
 src/py/partio.i | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index 0835111..44fcf5e 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -631,6 +631,9 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         $1 = nullptr;
     }
 }
+%typemap(typecheck, precedence=SWIG_TYPECHECK_POINTER) const std::map<std::string, std::string> * attrNameMap {
+    $1 = PyDict_Check($input) || $input == Py_None;
+}
 
 %feature("autodoc");
 %feature("docstring","Clone a particle set's attribute schema");
-- 
2.43.0


From 1277f64082a56d57f1a61449f4722f2f09231772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:55 +0000
Subject: [PATCH 49/60] fix: byte string values of a Python attribute map are
 used

---
 src/py/partio.i | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 44fcf5e..eb2465f 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -621,7 +621,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
                 continue;
             std::string value_str;
             if (PyBytes_Check(value))
-                key_str = PyBytes_AsString(value);
+                value_str = PyBytes_AsString(value);
             else if (PyUnicode_Check(value))
                 value_str = PyBytes_AsString(PyUnicode_AsUTF8String(value));
             temp[std::move(key_str)] = std::move(value_str);
-- 
2.43.0


From 5d9dff66fa226f21e9a8280cc92c07b9894dc61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:55 +0000
Subject: [PATCH 50/60] fix: Python queries reject points of the wrong size

---
 src/py/partio.i | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index eb2465f..2b4d800 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -125,6 +125,10 @@ public:
         return NULL;
     }
     int size=PyObject_Length($input);
+    if(size<0 || size>16){
+        PyErr_SetString(PyExc_ValueError,"Expecting a sequence of at most 16 floats");
+        return NULL;
+    }
     $1.count=size;
     for(i=0;i<size;i++){
         PyObject* o=PySequence_GetItem($input,i);
@@ -253,7 +257,7 @@ public:
     {
         // make sure we are close
         if(center.count!=3){
-            fprintf(stderr,"Need center to be a 3 tuple of floats\n");
+            PyErr_SetString(PyExc_ValueError,"Need center to be a 3 tuple of floats");
             return NULL;
         }
         // find nearest neighbors
@@ -277,7 +281,7 @@ public:
     {    
         // make sure we are close
         if(bboxMin.count!=3 || bboxMax.count!=3){
-            fprintf(stderr,"Need bboxMin and bboxMax to be a 3 tuple of floats\n");
+            PyErr_SetString(PyExc_ValueError,"Need bboxMin and bboxMax to be a 3 tuple of floats");
             return NULL;
         }
         // find nearest neighbors
-- 
2.43.0


From 93d8572406ae409dbbd843f0a6ad9458d210dfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:55 +0000
Subject: [PATCH 51/60] fix: JSON particles with undefined attributes are
 skipped

---
 src/tools/partjson.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/partjson.py b/src/tools/partjson.py
index 342253d..b9b8292 100644
--- a/src/tools/partjson.py
+++ b/src/tools/partjson.py
@@ -124,7 +124,7 @@ def fromJson(data):
             for attrName, value in particle.items():
                 try:
                     attr = attributes[attrName]
-                except IndexError:
+                except KeyError:
                     sys.stderr.write('Could not match attribute "{}" for particle {} with any defined attributes. Skipping.\n'.format(attrName, pnum))
                     continue
                 if len(value) != attr.count:
-- 
2.43.0


From f37aa802dbb39dae102e0147d45a33f982690ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 52/60] fix: JSON keeps the tokens of tables that repeat a
 string

---
 src/tools/partjson.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/tools/partjson.py b/src/tools/partjson.py
index b9b8292..46623ea 100644
--- a/src/tools/partjson.py
+++ b/src/tools/partjson.py
@@ -73,6 +73,17 @@ def toJson(particleSet):
     return data
 
 
+def registerStrings(register, rename, attr, strings):
+    """ Registers strings so that each gets its position as its token """
+    for token, string in enumerate(strings):
+        if register(attr, string) != token:
+            # The string occurs before: give the token another string first
+            placeholder = string + '_'
+            while placeholder in strings:
+                placeholder += '_'
+            rename(attr, register(attr, placeholder), string)
+
+
 def fromJson(data):
     """ Converts a json dictionary to a particle set """
 
@@ -104,8 +115,8 @@ def fromJson(data):
             if attrName not in fixedAttributes:
                 sys.stderr.write('Could not match fixed indexed string {} with any defined fixed attribute. Skipping.\n'.format(attrName))
                 continue
-            for string in strings:
-                particleSet.registerFixedIndexedStr(fixedAttributes[attrName], string)
+            registerStrings(particleSet.registerFixedIndexedStr, particleSet.setFixedIndexedStr,
+                            fixedAttributes[attrName], strings)
 
     # Convert indexed strings
     if 'indexedStrings' in data:
@@ -113,8 +124,8 @@ def fromJson(data):
             if attrName not in attributes:
                 sys.stderr.write('Could not match indexed string {} with any defined attribute. Skipping.\n'.format(attrName))
                 continue
-            for string in strings:
-                particleSet.registerIndexedStr(attributes[attrName], str(string))
+            registerStrings(particleSet.registerIndexedStr, particleSet.setIndexedStr,
+                            attributes[attrName], [str(string) for string in strings])
 
     # Convert particles
     if 'particles' in data:
-- 
2.43.0


From 7903aab5dd5336c4c23ea3db1d16a0ac8b309a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 53/60] fix: partinfo without a file name shows its usage

---
 src/tools/partinfo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/partinfo.cpp b/src/tools/partinfo.cpp
index ee667c1..7a4d002 100644
--- a/src/tools/partinfo.cpp
+++ b/src/tools/partinfo.cpp
@@ -111,6 +111,10 @@ int main(int argc, char* argv[])
             particleIndices.insert(atoi(argv[i]));
         }
     }
+    if (!filename) {
+        help();
+        return 1;
+    }
     Partio::ParticlesDataMutable* p = Partio::read(filename);
     if (!p) {
         std::cerr << "Unable to read \"" << filename << "\"\n";
-- 
2.43.0


From e79c3977740b996a041b411265984a046f4b4ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 54/60] fix: partattr reports an attribute the file does not
 have

---
 src/tools/partattr.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/partattr.cpp b/src/tools/partattr.cpp
index b8997f6..f8eac66 100644
--- a/src/tools/partattr.cpp
+++ b/src/tools/partattr.cpp
@@ -56,7 +56,11 @@ int main(int argc,char *argv[])
     }
 
     Partio::ParticleAttribute attrhandle;
-    p->attributeInfo(attrName.c_str(), attrhandle);
+    if (!p->attributeInfo(attrName.c_str(), attrhandle)) {
+        std::cerr << "No attribute " << attrName << " in " << argv[1] << std::endl;
+        p->release();
+        return 1;
+    }
     maxParticles = std::min(maxParticles, p->numParticles());
 
     if (attrhandle.type == Partio::INT) {
-- 
2.43.0


From 1454058f62302c03ce2a6ee940d42b8e5d079b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:54 +0000
Subject: [PATCH 55/60] fix: a cached read of a malformed file does not
 deadlock

---
 src/lib/core/ParticleCaching.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/core/ParticleCaching.cpp b/src/lib/core/ParticleCaching.cpp
index 3e38146..16d77cc 100644
--- a/src/lib/core/ParticleCaching.cpp
+++ b/src/lib/core/ParticleCaching.cpp
@@ -34,7 +34,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 */
 #include <iostream>
 #include <cassert>
-#include "Mutex.h"
+#include <mutex>
 #include "../Partio.h"
 
 //#####################################################################
@@ -42,7 +42,8 @@ namespace Partio{
 
 namespace
 {
-    static PartioMutex mutex;
+    // recursive, since a reader that fails releases its particles during the load
+    static std::recursive_mutex mutex;
 }
     
 // cached read write
-- 
2.43.0


From 7400957b78ddab2de3f10321e2a932421138e43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:25 +0000
Subject: [PATCH 56/60] fix: zip members with output pending at the end of
 their data are read whole

---
 src/lib/io/ZIP.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 0d2df73..013ceeb 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -283,8 +283,7 @@ public:
                 istream.read((char*)in,part_of_zip_file?std::min((unsigned int)buffer_size,header.compressed_size-total_read):(unsigned int)buffer_size);
                 strm.avail_in=static_cast<uInt>(istream.gcount());
                 total_read+=strm.avail_in;
-                strm.next_in=(Bytef*)in;
-                if(strm.avail_in==0) break;} // truncated file
+                strm.next_in=(Bytef*)in;}
             int ret=inflate(&strm,Z_NO_FLUSH); // decompress
             switch(ret){
                 case Z_STREAM_ERROR: 
@@ -295,7 +294,7 @@ public:
                 case Z_MEM_ERROR: 
                     std::cerr<<"gzip error "<<strm.msg<<std::endl;
                     valid=false;return -1;}
-            if(ret==Z_STREAM_END) break;}
+            if(ret==Z_STREAM_END || ret==Z_BUF_ERROR) break;} // end, or truncated file
         int unzip_count=buffer_size-strm.avail_out-4;
         total_uncompressed+=unzip_count;
         return unzip_count;}
-- 
2.43.0


From a5be0d65ed5e7c390cdf1fda02f6d9b23843b933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:41 +0000
Subject: [PATCH 57/60] fix: Python get of a particle past the end raises

---
 src/py/partio.i | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index 2b4d800..eb39b00 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -303,9 +303,19 @@ public:
         PyObject* tuple=PyTuple_New(attr.count);
         if(attr.type==Partio::INT || attr.type==Partio::INDEXEDSTR){
             const int* p=$self->data<int>(attr,particleIndex);
+            if(!p){
+                Py_XDECREF(tuple);
+                PyErr_SetString(PyExc_IndexError,"Invalid particle index");
+                return NULL;
+            }
             for(int k=0;k<attr.count;k++) PyTuple_SetItem(tuple,k,PyInt_FromLong(p[k]));
         }else if(attr.type==Partio::FLOAT || attr.type==Partio::VECTOR){
             const float* p=$self->data<float>(attr,particleIndex);
+            if(!p){
+                Py_XDECREF(tuple);
+                PyErr_SetString(PyExc_IndexError,"Invalid particle index");
+                return NULL;
+            }
             for(int k=0;k<attr.count;k++) PyTuple_SetItem(tuple,k,PyFloat_FromDouble(p[k]));
         }else{
             Py_XDECREF(tuple);
-- 
2.43.0


From ae4bc1961458f28a5b2d7121dd9a8f98c40b422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:41 +0000
Subject: [PATCH 58/60] fix: Python attribute lookups by an invalid index raise
 IndexError

---
 src/py/partio.i | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index eb39b00..12f55dd 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -482,6 +482,14 @@ public:
     unsigned long long ptr() const { return (unsigned long long)(void*)self; }
 }
 
+%exception ParticlesInfo::attributeInfo {
+    $action
+    if(PyErr_Occurred()) SWIG_fail;
+}
+%exception ParticlesInfo::fixedAttributeInfo {
+    $action
+    if(PyErr_Occurred()) SWIG_fail;
+}
 %extend ParticlesInfo {
 
     %feature("autodoc");
-- 
2.43.0


From 5ceca78efeb04a0b38a5486938204cff49e8e0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:41 +0000
Subject: [PATCH 59/60] fix: Python None in place of a string raises

---
 src/py/partio.i | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index 12f55dd..f2465c5 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -108,6 +108,14 @@ public:
 };
 
 
+/* None is no string */
+%typemap(check) const char* {
+    if(!$1){
+        PyErr_SetString(PyExc_ValueError,"Expecting a string");
+        SWIG_fail;
+    }
+}
+
 %typemap(in) uint64_t {
 	$1 = (uint64_t) PyLong_AsLong($input);
 }
-- 
2.43.0


From f0bff7d14bd81cf854960ce224815cbe6388d8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:07 +0000
Subject: [PATCH 60/60] fix: release the inflate state when the compressed data
 is damaged

---
 src/lib/io/ZIP.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 013ceeb..209bb60 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -241,12 +241,13 @@ class ZipStreambufDecompress:public std::streambuf
     bool own_istream;
     bool valid;
     bool compressed_data;
+    bool inflating; // strm holds state that has to be released
 
     static const unsigned short DEFLATE=8;
     static const unsigned short UNCOMPRESSED=0;
 public:
     ZipStreambufDecompress(std::istream& stream,const ZipFileHeader* central_header)
-        :istream(stream),total_read(0),total_uncompressed(0),part_of_zip_file(central_header!=0),valid(true)
+        :istream(stream),total_read(0),total_uncompressed(0),part_of_zip_file(central_header!=0),valid(true),inflating(false)
     {
         strm.zalloc=Z_NULL;strm.zfree=Z_NULL;strm.opaque=Z_NULL;strm.avail_in=0;strm.next_in=Z_NULL;
         setg((char*)in,(char*)in,(char*)in);
@@ -266,11 +267,12 @@ public:
         // initialize the inflate
         if(compressed_data && valid){
             int result=inflateInit2(&strm,-MAX_WBITS);
-            if(result!=Z_OK){std::cerr<<"gzip: inflateInit2 did not return Z_OK"<<std::endl;valid=false;}}
+            if(result!=Z_OK){std::cerr<<"gzip: inflateInit2 did not return Z_OK"<<std::endl;valid=false;}
+            else inflating=true;}
     }
 
     virtual ~ZipStreambufDecompress()
-    {if(compressed_data && valid) inflateEnd(&strm);
+    {if(inflating) inflateEnd(&strm);
     if(!part_of_zip_file) delete &istream;}
 
     int process()
-- 
2.43.0

