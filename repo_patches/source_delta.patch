From 8f85ca16f8095f88a7bbc5e3c86cc834c78ad6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 01/26] fix: complete unpacking a collection of a Frame before
 other threads can see it

Requests from several threads could miss a collection that another thread was
unpacking, see it without its relations, or modify the set of retrieved IDs
concurrently.
---
 include/podio/Frame.h | 49 ++++++++++++++++---------------------------
 1 file changed, 18 insertions(+), 31 deletions(-)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index 1f83030..e26e98c 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -14,7 +14,6 @@
 #include <memory>
 #include <mutex>
 #include <optional>
-#include <set>
 #include <stdexcept>
 #include <string>
 #include <type_traits>
@@ -141,18 +140,19 @@ class Frame {
     std::vector<std::string> availableCollections() const override;
 
   private:
-    podio::CollectionBase* doGet(const std::string& name, bool setReferences = true) const;
+    podio::CollectionBase* doGet(const std::string& name) const;
 
     using CollectionMapT = std::unordered_map<std::string, std::unique_ptr<podio::CollectionBase>>;
 
     mutable CollectionMapT m_collections{};                 ///< The internal map for storing unpacked collections
     mutable std::unique_ptr<std::mutex> m_mapMtx{nullptr};  ///< The mutex for guarding the internal collection map
     std::unique_ptr<FrameDataT> m_data{nullptr};            ///< The raw data read from file
-    mutable std::unique_ptr<std::mutex> m_dataMtx{nullptr}; ///< The mutex for guarding the raw data
+    /// The mutex for guarding the raw data. It is held from checking for a
+    /// collection until that is completely unpacked, including its relations
+    /// (for which collections are requested recursively)
+    mutable std::unique_ptr<std::recursive_mutex> m_dataMtx{nullptr};
     podio::CollectionIDTable m_idTable{};                   ///< The collection ID table
     std::unique_ptr<podio::GenericParameters> m_parameters{nullptr}; ///< The generic parameter store for this frame
-    mutable std::set<uint32_t> m_retrievedIDs{}; ///< The IDs of the collections that we have already read (but not yet
-                                                 ///< put into the map)
   };
 
   std::unique_ptr<FrameConcept> m_self; ///< The internal concept pointer through which all the work is done
@@ -424,7 +424,7 @@ const CollT& Frame::put(CollT&& coll, const std::string& name) {
 
 template <typename FrameDataT>
 Frame::FrameModel<FrameDataT>::FrameModel(std::unique_ptr<FrameDataT> data) :
-    m_mapMtx(std::make_unique<std::mutex>()), m_dataMtx(std::make_unique<std::mutex>()) {
+    m_mapMtx(std::make_unique<std::mutex>()), m_dataMtx(std::make_unique<std::recursive_mutex>()) {
   if (!data) {
     throw std::invalid_argument(
         "FrameData is a nullptr. If you are reading from a file it may be corrupted or you may reading beyond the end "
@@ -441,7 +441,10 @@ const podio::CollectionBase* Frame::FrameModel<FrameDataT>::get(const std::strin
 }
 
 template <typename FrameDataT>
-podio::CollectionBase* Frame::FrameModel<FrameDataT>::doGet(const std::string& name, bool setReferences) const {
+podio::CollectionBase* Frame::FrameModel<FrameDataT>::doGet(const std::string& name) const {
+  // Make sure that concurrent requests wait until a collection is completely
+  // unpacked and only ever see it with all its relations in place
+  std::lock_guard dataLock{*m_dataMtx};
   {
     // First check whether the collection is in the map already
     //
@@ -457,13 +460,7 @@ podio::CollectionBase* Frame::FrameModel<FrameDataT>::doGet(const std::string& n
 
   // Now try to get it from the raw data if we have the possibility
   if (m_data) {
-    // Have the buffers in the outer scope here to hold the raw data lock as
-    // briefly as possible
-    std::optional<podio::CollectionReadBuffers> buffers;
-    {
-      std::lock_guard lock{*m_dataMtx};
-      buffers = unpack(m_data.get(), name);
-    }
+    auto buffers = unpack(m_data.get(), name);
     if (buffers) {
       std::unique_ptr<podio::CollectionBase> coll{nullptr};
       // Subset collections do not need schema evolution (by definition)
@@ -487,9 +484,9 @@ podio::CollectionBase* Frame::FrameModel<FrameDataT>::doGet(const std::string& n
         retColl = it->second.get();
       }
 
-      if (setReferences) {
-        retColl->setReferences(this);
-      }
+      // The collection is in the map already, so requests for it that happen
+      // while setting the references will find it there
+      retColl->setReferences(this);
     }
   }
 
@@ -502,20 +499,10 @@ bool Frame::FrameModel<FrameDataT>::get(uint32_t collectionID, CollectionBase*&
   if (!name) {
     return false;
   }
-  const auto& [_, inserted] = m_retrievedIDs.insert(collectionID);
-
-  if (inserted) {
-    auto coll = doGet(name.value());
-    if (coll) {
-      collection = coll;
-      return true;
-    }
-  } else {
-    auto coll = doGet(name.value(), false);
-    if (coll) {
-      collection = coll;
-      return true;
-    }
+  auto coll = doGet(name.value());
+  if (coll) {
+    collection = coll;
+    return true;
   }
 
   return false;
-- 
2.43.0


From 593a6bde683a419bb9dfbb84ec4a04e39f834fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 02/26] fix: guard reading the collection ID table against
 concurrent additions

---
 include/podio/CollectionIDTable.h | 1 +
 include/podio/Frame.h             | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/podio/CollectionIDTable.h b/include/podio/CollectionIDTable.h
index 6c554fa..3ef2737 100644
--- a/include/podio/CollectionIDTable.h
+++ b/include/podio/CollectionIDTable.h
@@ -58,6 +58,7 @@ public:
 
   /// Does this table hold any information?
   bool empty() const {
+    std::lock_guard<std::mutex> lock{*m_mutex};
     return m_names.empty();
   }
 
diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index e26e98c..0b557e8 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -133,7 +133,8 @@ class Frame {
     bool get(uint32_t collectionID, podio::CollectionBase*& collection) const override;
 
     podio::CollectionIDTable getIDTable() const override {
-      // Make a copy
+      // Make a copy, while no collections can be added
+      std::lock_guard lock{*m_mapMtx};
       return {m_idTable.ids(), m_idTable.names()};
     }
 
-- 
2.43.0


From 65a973d7df488a4f39e34690c16a47144b9f0b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:29 +0000
Subject: [PATCH 03/26] fix: hold the locks of GenericParameters in getKeys,
 empty, clear and print

---
 include/podio/GenericParameters.h | 4 +++-
 src/GenericParameters.cc          | 2 ++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/podio/GenericParameters.h b/include/podio/GenericParameters.h
index f21e15d..d10500f 100644
--- a/include/podio/GenericParameters.h
+++ b/include/podio/GenericParameters.h
@@ -107,6 +107,7 @@ public:
 
   /// erase all elements
   void clear() {
+    std::scoped_lock lock(*m_intMtx, *m_floatMtx, *m_stringMtx, *m_doubleMtx);
     _intMap.clear();
     _floatMap.clear();
     _doubleMap.clear();
@@ -117,6 +118,7 @@ public:
 
   /// Check if no parameter is stored (i.e. if all internal maps are empty)
   bool empty() const {
+    std::scoped_lock lock(*m_intMtx, *m_floatMtx, *m_stringMtx, *m_doubleMtx);
     return _intMap.empty() && _floatMap.empty() && _doubleMap.empty() && _stringMap.empty();
   }
 
@@ -232,10 +234,10 @@ template <ValidGenericDataType T>
 std::vector<std::string> GenericParameters::getKeys() const {
   std::vector<std::string> keys;
   const auto& map = getMap<T>();
-  keys.reserve(map.size());
   {
     auto& mtx = getMutex<T>();
     std::lock_guard lock{mtx};
+    keys.reserve(map.size());
     std::transform(map.begin(), map.end(), std::back_inserter(keys), [](const auto& pair) { return pair.first; });
   }
 
diff --git a/src/GenericParameters.cc b/src/GenericParameters.cc
index 6befeb2..768a2e0 100644
--- a/src/GenericParameters.cc
+++ b/src/GenericParameters.cc
@@ -45,6 +45,8 @@ void printMap(const MapType& map, std::ostream& os) {
 }
 
 void GenericParameters::print(std::ostream& os, bool flush) const {
+  // acquire all locks at once, as for copying
+  std::scoped_lock lock(getMutex<int>(), getMutex<float>(), getMutex<std::string>(), getMutex<double>());
   os << "int parameters\n\n";
   printMap(getMap<int>(), os);
   os << "\nfloat parameters\n";
-- 
2.43.0


From dfcf98a2972bd47c16ab768c0c71a184203c5e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:57 +0000
Subject: [PATCH 04/26] fix: give a collection that is turned back from a
 subset its buffers again

---
 include/podio/detail/LinkCollectionImpl.h | 9 ++++++++-
 python/templates/Collection.cc.jinja2     | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index cf498c3..5c9505a 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -301,14 +301,21 @@ public:
   }
 
   void setSubsetCollection(bool setSubset = true) override {
-    if (m_isSubsetColl != setSubset && !m_storage.entries.empty()) {
+    if (m_isSubsetColl == setSubset) {
+      return;
+    }
+    if (!m_storage.entries.empty()) {
       throw std::logic_error("Cannot change the character of a collection that already contains elements");
     }
 
     if (setSubset) {
       m_storage.makeSubsetCollection();
+    } else {
+      // Normal collections need the buffers that subset collections do not have
+      m_storage = CollectionDataT();
     }
     m_isSubsetColl = setSubset;
+    m_isPrepared = false;
   }
 
   void setID(uint32_t id) override {
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index 0acc2e7..cba4e16 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -72,14 +72,21 @@ bool {{ collection_type }}::empty() const {
 }
 
 void {{ collection_type }}::setSubsetCollection(bool setSubset) {
-  if (m_isSubsetColl != setSubset && !m_storage.entries.empty()) {
+  if (m_isSubsetColl == setSubset) {
+    return;
+  }
+  if (!m_storage.entries.empty()) {
     throw std::logic_error("Cannot change the character of a collection that already contains elements");
   }
 
   if (setSubset) {
     m_storage.makeSubsetCollection();
+  } else {
+    // Normal collections need the buffers that subset collections do not have
+    m_storage = {{ collection_type }}Data();
   }
   m_isSubsetColl = setSubset;
+  m_isPrepared = false;
 }
 
 Mutable{{ class.bare_type }} {{ collection_type }}::create() {
-- 
2.43.0


From 6dd5426b3a1a9bb82cb10a00e87631ae3661ad34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:57 +0000
Subject: [PATCH 05/26] fix: prepareForWrite starts from empty buffers after a
 failed attempt

---
 python/templates/CollectionData.cc.jinja2 | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/templates/CollectionData.cc.jinja2 b/python/templates/CollectionData.cc.jinja2
index 0452da5..75403cf 100644
--- a/python/templates/CollectionData.cc.jinja2
+++ b/python/templates/CollectionData.cc.jinja2
@@ -141,7 +141,12 @@ void {{ class_type }}::prepareForWrite(bool isSubsetColl) {
     return;
   }
 
-  // Normal collections have to store the data and all the relations
+  // Normal collections have to store the data and all the relations. The buffers
+  // are not empty if an earlier attempt to fill them did not complete
+  m_data->clear();
+{% for member in VectorMembers %}
+  m_vec_{{ member.name }}->clear();
+{% endfor %}
   m_data->reserve(entries.size());
   for (const auto& obj : entries) { m_data->push_back(obj->data); }
 
-- 
2.43.0


From e62781551e403335168c6fa980d936e9a25c3f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:18 +0000
Subject: [PATCH 06/26] fix: copy only the own slice of the relations when
 cloning a mutable object

---
 python/templates/Obj.cc.jinja2 | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/templates/Obj.cc.jinja2 b/python/templates/Obj.cc.jinja2
index f7e9330..97d2667 100644
--- a/python/templates/Obj.cc.jinja2
+++ b/python/templates/Obj.cc.jinja2
@@ -31,10 +31,15 @@
 {{ obj_type }}::{{ obj_type }}(const {{ obj_type }}& other) :
   data(other.data){{ single_relations_initialize(OneToOneRelations) }}
 {%- for relation in OneToManyRelations + VectorMembers %},
-  m_{{ relation.name }}(new std::vector<{{ relation.full_type }}>(*(other.m_{{ relation.name }})))
+  m_{{ relation.name }}(new std::vector<{{ relation.full_type }}>(other.m_{{ relation.name }}->begin() + other.data.{{ relation.name }}_begin, other.m_{{ relation.name }}->begin() + other.data.{{ relation.name }}_end))
 {%- endfor %}
 
 {
+{% for relation in OneToManyRelations + VectorMembers %}
+  // Only the slice that belongs to other has been copied
+  data.{{ relation.name }}_begin = 0;
+  data.{{ relation.name }}_end = m_{{ relation.name }}->size();
+{% endfor %}
 {% for relation in OneToOneRelations %}
   if (other.m_{{ relation.name }}) {
     m_{{ relation.name }} = std::make_unique<{{ relation.full_type }}>(*(other.m_{{ relation.name }}));
-- 
2.43.0


From 59fcd202fc0c8af8765df3f30db564ec222a9ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:49 +0000
Subject: [PATCH 07/26] fix: treat schema version 0 as unknown

createBuffers and evolveBuffers looked up the function at index -1 for it.
---
 src/CollectionBufferFactory.cc | 2 +-
 src/SchemaEvolution.cc         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CollectionBufferFactory.cc b/src/CollectionBufferFactory.cc
index 8c48ea0..33ee245 100644
--- a/src/CollectionBufferFactory.cc
+++ b/src/CollectionBufferFactory.cc
@@ -15,7 +15,7 @@ std::optional<podio::CollectionReadBuffers>
 CollectionBufferFactory::createBuffers(const std::string& collType, SchemaVersionT version, bool subsetColl) const {
   if (const auto typeIt = m_funcMap.find(collType); typeIt != m_funcMap.end()) {
     const auto& [_, versionMap] = *typeIt;
-    if (versionMap.size() >= version) {
+    if (version > 0 && versionMap.size() >= version) {
       return versionMap[version - 1](subsetColl);
     }
   }
diff --git a/src/SchemaEvolution.cc b/src/SchemaEvolution.cc
index f21bb4f..423e649 100644
--- a/src/SchemaEvolution.cc
+++ b/src/SchemaEvolution.cc
@@ -24,7 +24,7 @@ podio::CollectionReadBuffers SchemaEvolution::evolveBuffers(podio::CollectionRea
     }
 
     const auto& typeEvolFuncs = m_evolutionFuncs[mapIndex];
-    if (fromVersion < typeEvolFuncs.size()) {
+    if (fromVersion > 0 && fromVersion < typeEvolFuncs.size()) {
       // Do we need this check? In principle we could ensure at registration
       // time that this is always guaranteed
       return typeEvolFuncs[fromVersion - 1](std::move(oldBuffers), fromVersion);
-- 
2.43.0


From 8363b98734a81c6163a632152db349a02f07d56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 08/26] fix: user defined evolution functions take precedence
 over generated ones

registerEvolutionFunc ignored the priority, so that a function that was
registered by a user was lost if the library with the datatype was loaded
later.
---
 include/podio/SchemaEvolution.h |  2 ++
 src/SchemaEvolution.cc          | 10 +++++++---
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/podio/SchemaEvolution.h b/include/podio/SchemaEvolution.h
index 5eb82c6..b70aa4b 100644
--- a/include/podio/SchemaEvolution.h
+++ b/include/podio/SchemaEvolution.h
@@ -129,6 +129,8 @@ private:
   VersionMapT m_versionMapIndices{};
   /// The "map" holding the evolution functions
   EvolutionMapT m_evolutionFuncs{};
+  /// The priorities with which the evolution functions have been registered
+  std::vector<std::vector<Priority>> m_priorities{};
 };
 
 } // namespace podio
diff --git a/src/SchemaEvolution.cc b/src/SchemaEvolution.cc
index 423e649..529cc28 100644
--- a/src/SchemaEvolution.cc
+++ b/src/SchemaEvolution.cc
@@ -51,21 +51,25 @@ void SchemaEvolution::registerEvolutionFunc(const std::string& collType, SchemaV
   if (typeIt->second.index == MapIndex::NoEvolutionAvailable) {
     typeIt->second.index = m_evolutionFuncs.size();
     m_evolutionFuncs.emplace_back();
+    m_priorities.emplace_back();
   }
 
   // From here on out we don't need the mutable any longer
   const auto& [_, mapIndex] = typeIt->second;
 
   auto& versionMap = m_evolutionFuncs[mapIndex];
+  auto& priorities = m_priorities[mapIndex];
   const auto prevSize = versionMap.size();
   if (prevSize < currentVersion) {
     versionMap.resize(currentVersion);
+    priorities.resize(currentVersion, Priority::AutoGenerated);
   }
 
-  versionMap[fromVersion - 1] = evolutionFunc;
-  if (priority != Priority::UserDefined) {
-    //  std::cerr << "Not updating evolution function because priority is not UserDefined" << std::endl;
+  if (priority == Priority::AutoGenerated && priorities[fromVersion - 1] == Priority::UserDefined) {
+    return; // user defined functions take precedence independent of the order of registration
   }
+  versionMap[fromVersion - 1] = evolutionFunc;
+  priorities[fromVersion - 1] = priority;
 }
 
 podio::CollectionReadBuffers SchemaEvolution::noOpSchemaEvolution(podio::CollectionReadBuffers&& buffers,
-- 
2.43.0


From 0674ccdf4efdee367f2f4c23511c26eedf1e7f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:50 +0000
Subject: [PATCH 09/26] fix: find the relation names of datatypes whose name
 ends in Collection

getRelationNames stripped a Collection suffix before looking up the type, so
that for a datatype that is itself called, e.g. TrackCollection no relation
names were found when asking for its value type name.
---
 src/DatamodelRegistry.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/DatamodelRegistry.cc b/src/DatamodelRegistry.cc
index 608d85d..340a56b 100644
--- a/src/DatamodelRegistry.cc
+++ b/src/DatamodelRegistry.cc
@@ -85,7 +85,12 @@ RelationNames DatamodelRegistry::getRelationNames(std::string_view typeName) con
     return {relationNames, emptyVec};
   }
 
-  // Strip Collection if necessary
+  if (const auto it = m_relations.find(typeName); it != m_relations.end()) {
+    return it->second;
+  }
+
+  // Strip Collection if necessary (but only after checking that this is not
+  // part of the name of a datatype)
   if (typeName.size() > 10 && typeName.substr(typeName.size() - 10) == "Collection") {
     typeName = typeName.substr(0, typeName.size() - 10);
   }
-- 
2.43.0


From d9de04ca3c9ad888bd331ddcdf13ffdaf449dc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:21 +0000
Subject: [PATCH 10/26] fix: name the exposed members of components according
 to getSyntax everywhere

The declarations used a misspelled variable, so that the generated headers
and sources did not match for getSyntax: True with exposePODMembers: True
---
 python/templates/macros/declarations.jinja2 | 4 ++--
 python/templates/macros/interface.jinja2    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/templates/macros/declarations.jinja2 b/python/templates/macros/declarations.jinja2
index 75058f5..06e6a32 100644
--- a/python/templates/macros/declarations.jinja2
+++ b/python/templates/macros/declarations.jinja2
@@ -17,7 +17,7 @@
 {% if member.sub_members %}
 {% for sub_member in member.sub_members %}
   /// Access the member of {{ member.docstring }}
-  {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_sytnax) }}() const;
+  {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_syntax) }}() const;
 {% endfor %}
 {% endif %}
 
@@ -43,7 +43,7 @@
   /// Get reference to the member of {{ member.docstring }}
   {{ sub_member.full_type }}& {{ sub_member.name }}();
   /// Set the member of  {{ member.docstring }}
-  void {{ sub_member.setter_name(get_sytnax) }}({{ sub_member.full_type }} value);
+  void {{ sub_member.setter_name(get_syntax) }}({{ sub_member.full_type }} value);
 {% endif %}
 {% endfor %}
 {% endif %}
diff --git a/python/templates/macros/interface.jinja2 b/python/templates/macros/interface.jinja2
index 44e9ad0..675f4c6 100644
--- a/python/templates/macros/interface.jinja2
+++ b/python/templates/macros/interface.jinja2
@@ -6,7 +6,7 @@
 {%- endif %}
 {% if member.sub_members %}
 {% for sub_member in member.sub_members %}
-    virtual {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_sytnax) }}() const = 0;
+    virtual {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_syntax) }}() const = 0;
 {% endfor %}
 {% endif %}
 
@@ -22,7 +22,7 @@
 {%- endif %}
 {% if member.sub_members %}
 {% for sub_member in member.sub_members %}
-    {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_sytnax) }}() const final { return m_value.{{ sub_member.getter_name(get_syntax) }}(); }
+    {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_syntax) }}() const final { return m_value.{{ sub_member.getter_name(get_syntax) }}(); }
 {% endfor %}
 {% endif %}
 
@@ -40,7 +40,7 @@
 {% if member.sub_members %}
 {% for sub_member in member.sub_members %}
   /// Access the member of {{ member.docstring }}
-  {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_sytnax) }}() const { return m_self->{{ sub_member.getter_name(get_syntax) }}(); }
+  {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_syntax) }}() const { return m_self->{{ sub_member.getter_name(get_syntax) }}(); }
 {% endfor %}
 {% endif %}
 
-- 
2.43.0


From e8c64e525f06d1f7123f10c128e74d11a5117725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 11/26] fix: accept upstream components as members if their
 members are exposed

With exposePODMembers: True a member whose type is a component of the
upstream datamodel ended in a KeyError, in the validation and in the
generation of the code
---
 python/podio_gen/cpp_generator.py       | 5 ++++-
 python/podio_gen/podio_config_reader.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 01c2b65..8020341 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -436,7 +436,10 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
 
         for member in datatype["Members"]:
             if self.expose_pod_members and not member.is_builtin and not member.is_array:
-                member.sub_members = self.datamodel.components[member.full_type]["Members"]
+                comp = self.datamodel.components.get(member.full_type) or (
+                    self.upstream_edm.components[member.full_type]
+                )
+                member.sub_members = comp["Members"]
 
         for relation in datatype["OneToOneRelations"]:
             if self._is_in(relation.full_type, "interfaces"):
diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 928f5a3..67c34cf 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -317,7 +317,10 @@ class ClassDefinitionValidator:
 
             all_members[member.name] = classname
             if expose_pod_members and not member.is_builtin and not member.is_array:
-                for sub_member in datamodel.components[member.full_type]["Members"]:
+                comp = datamodel.components.get(member.full_type) or (
+                    upstream_edm.components[member.full_type]
+                )
+                for sub_member in comp["Members"]:
                     if sub_member.name in all_members:
                         raise DefinitionError(
                             f"'{sub_member.name}' clashes with another member name in class "
-- 
2.43.0


From a4fbac66ff9c724405733b457f517bddfe0fcada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 12/26] fix: reject unknown categories in MutableExtraCode

---
 python/podio_gen/podio_config_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 67c34cf..9cafdca 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -391,12 +391,12 @@ class ClassDefinitionValidator:
             if key not in definition:
                 raise DefinitionError(f"'{classname}' does not define '{key}'")
 
-        if "ExtraCode" in definition:
-            extracode = definition["ExtraCode"]
+        for field in cls.valid_extra_datatype_keys:
+            extracode = definition.get(field, {})
             invalid_keys = [k for k in extracode if k not in cls.valid_extra_code_keys]
             if invalid_keys:
                 raise DefinitionError(
-                    f"{classname} defines invalid 'ExtraCode' categories: " f"{invalid_keys}"
+                    f"{classname} defines invalid '{field}' categories: {invalid_keys}"
                 )
 
     @classmethod
-- 
2.43.0


From bf7d343a43dd8ad48945831969a29cc15eefc961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 13/26] fix: reject data models with clashing names

---
 python/podio_gen/podio_config_reader.py | 32 +++++++++++++++++++++----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 9cafdca..034d758 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -219,7 +219,14 @@ class ClassDefinitionValidator:
                             "Only 'declaration', 'declarationFile' and 'includes' are allowed here"
                         )
 
+            member_names = set()
             for member in component["Members"]:
+                if member.name in member_names:
+                    raise DefinitionError(
+                        f"'{member.name}' clashes with another member in component '{name}'"
+                    )
+                member_names.add(member.name)
+
                 is_builtin = member.is_builtin or member.is_builtin_array
                 is_component_array = member.is_array and cls._check_comp(
                     member.array_type, datamodel.components, upstream_edm
@@ -242,6 +249,8 @@ class ClassDefinitionValidator:
         # declaration. NOTE: In this way also invalid classes will be considered,
         # but they should hopefully be caught later
         for name, definition in datamodel.datatypes.items():
+            if name in datamodel.components:
+                raise DefinitionError(f"'{name}' is defined as a component and as a datatype")
             cls._check_keys(name, definition)
             cls._fill_defaults(definition)
             cls._check_datatype(name, definition, expose_pod_members, datamodel, upstream_edm)
@@ -254,10 +263,10 @@ class ClassDefinitionValidator:
         all_types.extend(ext_types)
 
         for name, definition in datamodel.interfaces.items():
-            if name in all_types:
+            if name in all_types or name in datamodel.components:
                 raise DefinitionError(
                     f"'{name}' defines an interface type with the same name "
-                    "as an existing datatype"
+                    "as an existing datatype or component"
                 )
             cls._check_required_fields(name, definition, cls.required_interface_keys, "interface")
             cls._check_interface_types(name, definition, all_types)
@@ -265,7 +274,7 @@ class ClassDefinitionValidator:
     @classmethod
     def _check_datatype(cls, classname, definition, expose_pod_members, datamodel, upstream_edm):
         """Check that a datatype only defines valid types and relations."""
-        cls._check_members(
+        all_members = cls._check_members(
             classname,
             definition.get("Members", []),
             expose_pod_members,
@@ -274,6 +283,16 @@ class ClassDefinitionValidator:
         )
         cls._check_relations(classname, definition, datamodel, upstream_edm)
 
+        # Relations and vector members share their accessor names with the members
+        for category in ("OneToManyRelations", "OneToOneRelations", "VectorMembers"):
+            for member in definition.get(category, []):
+                if member.name in all_members:
+                    raise DefinitionError(
+                        f"'{member.name}' of the {category} clashes with another member in class "
+                        f"'{classname}', previously defined in '{all_members[member.name]}'"
+                    )
+                all_members[member.name] = category
+
     @classmethod
     def _check_links(cls, datamodel, upstream_edm):
         """Check the link definitions"""
@@ -284,9 +303,10 @@ class ClassDefinitionValidator:
         all_types.extend(ext_types)
 
         for name, definition in datamodel.links.items():
-            if name in all_types:
+            if name in all_types or name in datamodel.components:
                 raise DefinitionError(
-                    f"'{name}' defines a link type with the same name as an existing datatype"
+                    f"'{name}' defines a link type with the same name as an existing datatype, "
+                    "interface or component"
                 )
             cls._check_required_fields(name, definition, cls.required_link_keys, "link")
             cls._check_link_types(name, definition, all_types)
@@ -330,6 +350,8 @@ class ClassDefinitionValidator:
 
                     all_members[sub_member.name] = f"member '{member.name}'"
 
+        return all_members
+
     @classmethod
     def _check_relations(cls, classname, definition, datamodel, upstream_edm):
         """Check the relations of a class."""
-- 
2.43.0


From 351781f345ef63e6875dbd54b3a2ed0a61eb8d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 14/26] fix: use the name of dropped components in the rename
 warning

---
 python/podio_schema_evolution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 55f0c14..c474cd0 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -442,7 +442,9 @@ class SchemaEvolutionJudge:
             for added in added_components:
                 added_members = {member.name: member for member in added.component["Members"]}
                 if set(dropped_members.keys()) == set(added_members.keys()):
-                    warnings.append(f"Potential rename of '{dropped.name}' into '{added.name}'.")
+                    warnings.append(
+                        f"Potential rename of '{dropped.klassname}' into '{added.klassname}'."
+                    )
 
         return schema_changes, warnings, errors
 
-- 
2.43.0


From c249d7d605974aa5ab268602f96877139a80dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 15/26] fix: forbid type changes from and to components in the
 schema evolution

---
 python/podio_schema_evolution.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index c474cd0..24ab78d 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -332,6 +332,14 @@ class SchemaEvolutionJudge:
 
         return warnings
 
+    def _changes_component(self, change, old_datamodel):
+        """Check whether a type change involves a component (or an array of them)"""
+        old_type = change.old_member.array_type or change.old_member.full_type
+        new_type = change.new_member.array_type or change.new_member.full_type
+        return old_type != new_type and (
+            old_type in old_datamodel.components or new_type in self.datamodel_new.components
+        )
+
     def _heuristics(
         self,
         old_datamodel,
@@ -376,8 +384,8 @@ class SchemaEvolutionJudge:
                     f"'{change.old_member.name}' from '{change.old_member.full_type}'"
                     f" to '{change.new_member.full_type}'"
                 )
-            # changing from one component type to another component type is forbidden
-            elif change.old_member.full_type in old_datamodel.components:
+            # changing from or to a component type is forbidden
+            elif self._changes_component(change, old_datamodel):
                 errors.append(
                     f"Forbidden schema change in '{change.klassname}' for "
                     f"'{change.old_member.name}' from '{change.old_member.full_type}'"
-- 
2.43.0


From e7630451afa582e65136e22e2e54b99796d9a112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 16/26] fix: use every datatype in at most one rename in the
 schema evolution

---
 python/podio_schema_evolution.py | 46 +++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 24ab78d..1c20fde 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -417,25 +417,33 @@ class SchemaEvolutionJudge:
                     sig.add((member.name, member.full_type))
             return sig
 
-        for dropped in dropped_datatypes:
-            dropped_sig = _member_signature(dropped.datatype)
-            is_known_evolution = False
-            for added in added_datatypes:
-                if dropped_sig == _member_signature(added.datatype):
-                    for schema_change in read_schema_changes:
-                        if isinstance(schema_change, RenamedDataType) and (
-                            schema_change.name_old == dropped.klassname
-                            and schema_change.name_new == added.klassname
-                        ):
-                            schema_changes.remove(dropped)
-                            schema_changes.remove(added)
-                            schema_changes.append(schema_change)
-                            is_known_evolution = True
-                    if not is_known_evolution:
-                        renamed = RenamedDataType(dropped.klassname, added.klassname)
-                        schema_changes.remove(dropped)
-                        schema_changes.remove(added)
-                        schema_changes.append(renamed)
+        def _described_rename(dropped, added):
+            """Get the description of this rename by the user, if there is one"""
+            for schema_change in read_schema_changes:
+                if isinstance(schema_change, RenamedDataType) and (
+                    schema_change.name_old == dropped.klassname
+                    and schema_change.name_new == added.klassname
+                ):
+                    return schema_change
+            return None
+
+        possible_renames = [
+            (dropped, added)
+            for dropped in dropped_datatypes
+            for added in added_datatypes
+            if _member_signature(dropped.datatype) == _member_signature(added.datatype)
+        ]
+        # Renames that are described by the user take precedence, and every type
+        # can only be part of one rename
+        possible_renames.sort(key=lambda rename: _described_rename(*rename) is None)
+        for dropped, added in possible_renames:
+            if dropped in schema_changes and added in schema_changes:
+                renamed = _described_rename(dropped, added)
+                schema_changes.remove(dropped)
+                schema_changes.remove(added)
+                schema_changes.append(
+                    renamed or RenamedDataType(dropped.klassname, added.klassname)
+                )
 
         # are there dropped/added component pairs that could be interpreted as rename?
         dropped_components = [
-- 
2.43.0


From fdb07383076ae4d87bc3f2500ebcd258ceb56ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 17/26] fix: do not accept changes of relation types silently
 in the schema evolution

---
 python/podio_schema_evolution.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 1c20fde..8989af1 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -445,6 +445,26 @@ class SchemaEvolutionJudge:
                     renamed or RenamedDataType(dropped.klassname, added.klassname)
                 )
 
+        # the target type of a relation may only change together with a rename of
+        # that type, or to an interface of it
+        renamed_types = [
+            (change.name_old, change.name_new)
+            for change in schema_changes
+            if isinstance(change, RenamedDataType)
+        ]
+        for change in changed_members:
+            old_type, new_type = change.old_member.full_type, change.new_member.full_type
+            if old_type not in old_datamodel.datatypes and old_type not in old_datamodel.interfaces:
+                continue
+            interface = self.datamodel_new.interfaces.get(new_type, {})
+            if (old_type, new_type) not in renamed_types and not any(
+                typ.full_type == old_type for typ in interface.get("Types", [])
+            ):
+                errors.append(
+                    f"Forbidden schema change in '{change.klassname}' for relation "
+                    f"'{change.old_member.name}' from '{old_type}' to '{new_type}'"
+                )
+
         # are there dropped/added component pairs that could be interpreted as rename?
         dropped_components = [
             change for change in schema_changes if isinstance(change, DroppedComponent)
-- 
2.43.0


From ec57748bfc66c5a87fccf7b98ad9abbd71612dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 18/26] fix: make the order of detected schema changes
 independent of the hash seed

The sets of added, dropped and kept names determined the order of the
schema changes, and with it the order of the generated I/O rules
---
 python/podio_schema_evolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 8989af1..c6e32df 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -649,7 +649,7 @@ class DataModelComparator:
         added = set(keys1).difference(keys2)
         dropped = set(keys2).difference(keys1)
         kept = set(keys1).intersection(keys2)
-        return added, dropped, kept
+        return sorted(added), sorted(dropped), sorted(kept)
 
     def get_changed_schemata(self, results, schema_filter=None):
         """return the schemata which actually changed"""
-- 
2.43.0


From c81aad249f7d9e9fea4a8302d6149a9806562379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 19/26] fix: generate dropped components in a fixed order

Iterating over a set gave another order of the generated files for every hash seed
---
 python/podio_gen/cpp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 8020341..9a92ff2 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -619,7 +619,7 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         previous_components = set(self.old_components.keys())
         dropped_components = previous_components.difference(current_components)
 
-        for name in dropped_components:
+        for name in sorted(dropped_components):
             comps = sorted(self.old_components[name], key=lambda x: x["version"], reverse=True)
             most_recent_comp = comps[0]["definition"]
             most_recent_comp["class"] = DataType(name)
-- 
2.43.0


From 50f86c470f904f29799b8a529b8f5dc1a29d7840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 20/26] fix: make the generated julia code independent of the
 hash seed

Types without remaining dependencies were taken from a set, and type
parameters with the same bare type were left in the order of a set
---
 python/podio_gen/julia_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/julia_generator.py b/python/podio_gen/julia_generator.py
index e96ceb0..4e9fe36 100644
--- a/python/podio_gen/julia_generator.py
+++ b/python/podio_gen/julia_generator.py
@@ -63,7 +63,7 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
             # all the datatypes that use them
             return None
 
-        datatype["params_jl"] = sorted(self._get_julia_params(datatype), key=lambda x: x[0])
+        datatype["params_jl"] = sorted(self._get_julia_params(datatype))
         datatype["upstream_edm"] = self.upstream_edm
         datatype["upstream_edm_name"] = self.get_upstream_name()
 
@@ -138,7 +138,7 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
                 )
                 break
 
-            for component in ready:
+            for component in sorted(ready):
                 del dependencies[component]
                 sorted_components.append(bare_types_mapping[component])
 
-- 
2.43.0


From e7946f27331794b4e595973b0ee21199c5b40401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 21/26] fix: compare generated files exactly with existing ones

Files that differ only in their line endings were left in place, and
files that are not valid UTF-8 made the generation fail
---
 python/podio_gen/generator_base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/generator_base.py b/python/podio_gen/generator_base.py
index e70b5fc..c70bec3 100644
--- a/python/podio_gen/generator_base.py
+++ b/python/podio_gen/generator_base.py
@@ -39,7 +39,9 @@ def write_file_if_changed(filename, content, force_write=False):
     """Write the file contents only if it has changed or if the file does not exist
     yet. Return whether the file has been written or not"""
     try:
-        with open(filename, "r", encoding="utf-8") as infile:
+        with open(
+            filename, "r", encoding="utf-8", errors="surrogateescape", newline=""
+        ) as infile:
             existing_content = infile.read()
             changed = existing_content != content
     except FileNotFoundError:
-- 
2.43.0


From fd7cfbfdffe7fa3ad3811036f2b151416e830b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:29 +0000
Subject: [PATCH 22/26] fix: do not overwrite the list of generated files in a
 dry run

---
 python/podio_gen/cpp_generator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 9a92ff2..4f2ac4d 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -176,7 +176,8 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         if the_links := datamodel["links"]:
             self._write_links_registration_file(the_links)
         self._write_all_collections_header()
-        self._write_cmake_lists_file()
+        if not self.dryrun:
+            self._write_cmake_lists_file()
 
     def do_process_component(self, name, component):
         """Handle everything cpp specific after the common processing of a component"""
-- 
2.43.0


From 45014c49f1c0b13dcec5e8779f7287e5d8b1bfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 23/26] fix: make the stream output operator of links usable

Link<FromT, ToT> is an alias of a type with non-deducible template parameters,
so that no call of the operator ever compiled. Take both kinds of links.
---
 include/podio/detail/Link.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/podio/detail/Link.h b/include/podio/detail/Link.h
index 9193f80..5639b86 100644
--- a/include/podio/detail/Link.h
+++ b/include/podio/detail/Link.h
@@ -348,8 +348,8 @@ private:
   podio::utils::MaybeSharedPtr<LinkObjT> m_obj{nullptr};
 };
 
-template <typename FromT, typename ToT>
-std::ostream& operator<<(std::ostream& os, const Link<FromT, ToT>& link) {
+template <typename FromT, typename ToT, bool Mutable>
+std::ostream& operator<<(std::ostream& os, const LinkT<FromT, ToT, Mutable>& link) {
   if (!link.isAvailable()) {
     return os << "[not available]";
   }
-- 
2.43.0


From a06eae517baa6d6922370858aab469173ecf4bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 24/26] fix: convert mutable links to JSON

The conversion took immutable links only, different to the ones of the
generated objects, which can be converted from mutable ones.
---
 include/podio/detail/Link.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/podio/detail/Link.h b/include/podio/detail/Link.h
index 5639b86..8918a55 100644
--- a/include/podio/detail/Link.h
+++ b/include/podio/detail/Link.h
@@ -361,8 +361,8 @@ std::ostream& operator<<(std::ostream& os, const LinkT<FromT, ToT, Mutable>& lin
 }
 
 #if defined(PODIO_JSON_OUTPUT) && !defined(__CLING__)
-template <typename FromT, typename ToT>
-void to_json(nlohmann::json& j, const podio::LinkT<FromT, ToT, false>& link) {
+template <typename FromT, typename ToT, bool Mutable>
+void to_json(nlohmann::json& j, const podio::LinkT<FromT, ToT, Mutable>& link) {
   j = nlohmann::json{{"weight", link.getWeight()}};
 
   j["from"] = nlohmann::json{{"collectionID", link.getFrom().getObjectID().collectionID},
-- 
2.43.0


From d39c0659188aa8704e4800551bd18d90577c2041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 25/26] fix: convert link subset collections to lists of IDs in
 JSON

as all other collections do.
---
 include/podio/detail/LinkCollectionImpl.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index 5c9505a..8722b4c 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -462,8 +462,13 @@ namespace detail {
 template <typename FromT, typename ToT>
 void to_json(nlohmann::json& j, const podio::LinkCollection<FromT, ToT>& collection) {
   j = nlohmann::json::array();
+  const auto subset = collection.isSubsetCollection();
   for (auto&& elem : collection) {
-    j.emplace_back(elem);
+    if (subset) {
+      j.emplace_back(elem.id());
+    } else {
+      j.emplace_back(elem);
+    }
   }
 }
 #endif
-- 
2.43.0


From ff71b4b8cd7c5484e9d824a5427287d257c062c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 26/26] fix: align the titles of collection tables with the
 values

Array members are not printed, but had a title.
---
 python/podio_gen/cpp_generator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 4f2ac4d..eb9aff6 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -556,6 +556,8 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         # TODO: handle array members properly. These are currently ignored  # pylint: disable=fixme
         header_contents = []
         for member in datatype["Members"]:
+            if member.is_array:
+                continue
             header = {"name": member.name}
             if member.full_type in self.datamodel.components:
                 comps = [c.name for c in self.datamodel.components[member.full_type]["Members"]]
-- 
2.43.0

