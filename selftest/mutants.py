FR = "include/podio/Frame.h"
GP = "include/podio/GenericParameters.h"
IDT = "src/CollectionIDTable.cc"

# (name, properties that must report it, [(file, old, new)])
MUTANTS = [
    ("p03-idtable-tmp-lock", "P03", [(IDT, "  std::lock_guard<std::mutex> lock{*m_mutex};\n  const auto result = std::ranges::find(m_names, name);\n  const auto index",
                                           "  std::lock_guard<std::mutex>{*m_mutex};\n  const auto result = std::ranges::find(m_names, name);\n  const auto index")]),
    ("p03-idtable-add-late", "P03", [(IDT, "  std::lock_guard<std::mutex> lock{*m_mutex};\n  const auto result = std::ranges::find(m_names, name);\n  uint32_t ID = 0;\n",
                                           "  const auto result = std::ranges::find(m_names, name);\n  std::lock_guard<std::mutex> lock{*m_mutex};\n  uint32_t ID = 0;\n")]),
    ("p03-present-unlocked", "P03", [(IDT, "return collectionID(name).has_value();", "return std::ranges::find(m_names, name) != m_names.end();")]),
    ("p03-params-wrong-mutex", "P03", [(GP, "      return *(m_floatMtx.get());\n    } else if constexpr (std::is_same_v<detail::GetVectorType<T>, double>) {\n      return *(m_doubleMtx.get());",
                                            "      return *(m_floatMtx.get());\n    } else if constexpr (std::is_same_v<detail::GetVectorType<T>, double>) {\n      return *(m_stringMtx.get());")]),
    ("p03-params-copy-miss-one", "P03", [("src/GenericParameters.cc", "std::scoped_lock lock(intMtx, floatMtx, stringMtx, doubleMtx);", "std::scoped_lock lock(intMtx, floatMtx, stringMtx);")]),
    ("p03-getN-early-unlock", "P03", [(GP, "  std::lock_guard lock{mtx};\n  if (const auto it = map.find(key); it != map.end()) {\n    return", "  std::unique_lock lock{mtx};\n  const auto it = map.find(key);\n  lock.unlock();\n  if (it != map.end()) {\n    return")]),
    ("p03-frame-put-unlocked-id", "P03", [(FR, "    std::lock_guard lock{*m_mapMtx};\n    auto [it, success] = m_coll", "    auto [it, success] = m_coll")]),
    ("p03-prepare-unlocked", "P03", [("python/templates/Collection.cc.jinja2", "  std::lock_guard lock{*m_storageMtx};\n", "")]),
    ("p03-frame-avail-one-lock", "P03", [(FR, "std::scoped_lock lock{*m_mapMtx, *m_dataMtx};", "std::scoped_lock lock{*m_dataMtx};")]),
    ("p03-frame-lock-order", "P03", [(FR, "std::scoped_lock lock{*m_mapMtx, *m_dataMtx};", "std::lock_guard l1{*m_mapMtx};\n  std::lock_guard l2{*m_dataMtx};")]),
    ("p03-frame-maplock-refs", "P03", [(FR, "        retColl = it->second.get();\n      }\n", "        retColl = it->second.get();\n      }\n      std::lock_guard mapLock{*m_mapMtx};\n")]),
    ("p05-insert_or_assign", "P05", [(FR, "m_collections.try_emplace(name, std::move(coll));", "m_collections.insert_or_assign(name, std::move(coll));")]),
    ("p05-id-before-check", "P05", [(FR, "    auto [it, success] = m_collections.try_emplace(", "    const auto id = m_idTable.add(name);\n    auto [it, success] = m_collections.try_emplace("), (FR, "setID(m_idTable.add(name))", "setID(id)")]),
    ("p05-id-only-if-unset", "P05", [(FR, "      it->second->setID(m_idTable.add(name));", "      if (!it->second->hasID()) {\n        it->second->setID(m_idTable.add(name));\n      }")]),
    ("p05-nothrow", "P05", [(FR, '      throw std::invalid_argument("An object with key " + name + " already exists in the frame");', "      return it->second.get();")]),
    ("p05-evict", "P05", [(FR, "      retColl->setReferences(this);\n", "      retColl->setReferences(this);\n      if (!retColl->isValid()) {\n        m_collections.erase(name);\n        return nullptr;\n      }\n")]),
    ("p04-early-refs", "P04", [(FR, "      coll->setID(m_idTable.collectionID(name).value());\n", "      coll->setID(m_idTable.collectionID(name).value());\n      coll->setReferences(this);\n"), (FR, "      retColl->setReferences(this);\n", "")]),
    ("p04-wrong-version", "P04", [(FR, "std::move(buffers.value()), version, collType);", "std::move(buffers.value()), podio::SchemaVersionT{1}, collType);")]),
    ("p04-no-refs-subset", "P04", [(FR, "      retColl->setReferences(this);\n", "      if (!retColl->isSubsetCollection()) {\n        retColl->setReferences(this);\n      }\n")]),
    ("p04-lock-late", "P04", [(FR, "  std::lock_guard dataLock{*m_dataMtx};\n  {\n", "  {\n"), (FR, "  if (m_data) {\n    auto buffers", "  if (m_data) {\n    std::lock_guard dataLock{*m_dataMtx};\n    auto buffers")]),
    ("p04-rfd-noextract", "P04", [("src/ROOTFrameData.cc", "  auto bufferHandle = m_buffers.extract(name);\n  if (bufferHandle.empty()) {\n    return std::nullopt;\n  }\n\n  return {std::move(bufferHandle.mapped())};", "  auto it = m_buffers.find(name);\n  if (it == m_buffers.end()) {\n    return std::nullopt;\n  }\n  return {std::move(it->second)};")]),
    ("p04-id-late", "P04", [(FR, "      coll->setID(m_idTable.collectionID(name).value());\n", ""), (FR, "      retColl->setReferences(this);\n", "      retColl->setID(m_idTable.collectionID(name).value());\n      retColl->setReferences(this);\n")]),
]

# edits that must not be reported: (name, properties, edits)
BENIGN = [
    ("ok-frame-unique-lock", "P03", [(FR, "std::lock_guard lock{*m_mapMtx};", "std::unique_lock<std::mutex> lock(*m_mapMtx);")]),
    ("ok-idtable-unique", "P03,P06", [(IDT, "std::lock_guard<std::mutex> lock{*m_mutex};\n  const auto result = std::ranges::find(m_names, name);\n  uint32_t", "std::unique_lock<std::mutex> lock{*m_mutex, std::defer_lock};\n  lock.lock();\n  const auto result = std::ranges::find(m_names, name);\n  uint32_t")]),
    ("ok-frame-find-first", "P03,P04,P05", [(FR, """    auto [it, success] = m_collections.try_emplace(name, std::move(coll));
    if (success) {""", """    if (m_collections.find(name) == m_collections.end()) {
      auto it = m_collections.emplace(name, std::move(coll)).first;""")]),
    ("ok-frame-contains", "P03,P04,P05", [(FR, """    if (const auto it = m_collections.find(name); it != m_collections.end()) {
      return it->second.get();
    }
  }

  podio::CollectionBase* retColl""", """    if (m_collections.contains(name)) {
      return m_collections.at(name).get();
    }
  }

  podio::CollectionBase* retColl""")]),
    ("ok-rfd-find-erase", "P04", [("src/ROOTFrameData.cc", "  auto bufferHandle = m_buffers.extract(name);\n  if (bufferHandle.empty()) {\n    return std::nullopt;\n  }\n\n  return {std::move(bufferHandle.mapped())};", "  auto it = m_buffers.find(name);\n  if (it == m_buffers.end()) {\n    return std::nullopt;\n  }\n  auto b = std::move(it->second);\n  m_buffers.erase(it);\n  return b;")]),
    ("ok-frame-helper", "P03,P04,P05", [(FR, """      coll->prepareAfterRead();
      coll->setID(m_idTable.collectionID(name).value());
      {
        std::lock_guard mapLock{*m_mapMtx};
        auto [it, success] = m_collections.emplace(name, std::move(coll));
        // TODO: Check success? Or simply assume that everything is fine at this point?
        // TODO: Collision handling?
        retColl = it->second.get();
      }
""", """      retColl = store(name, std::move(coll));
"""), (FR, """    podio::CollectionBase* doGet(const std::string& name) const;
""", """    podio::CollectionBase* doGet(const std::string& name) const;
    podio::CollectionBase* store(const std::string& key, std::unique_ptr<podio::CollectionBase> c) const {
      const auto id = m_idTable.collectionID(key);
      c->prepareAfterRead();
      c->setID(*id);
      std::unique_lock mapLock{*m_mapMtx};
      const auto res = m_collections.try_emplace(key, std::move(c));
      return res.first->second.get();
    }
""")]),
]

MUTANTS += [
    ("p18-set-emplace", "P18", [(GP, "    map.insert_or_assign(key, std::move(v));", "    map.emplace(key, std::move(v));")]),
    ("p18-get-back", "P18", [(GP, "    return iv[0];", "    return iv.back();")]),
    ("p18-get-default", "P18", [(GP, "    if (iv.empty()) {\n      return std::nullopt;\n    }", "    if (iv.empty()) {\n      return T{};\n    }")]),
    ("p18-copy-cross", "P18", [("src/GenericParameters.cc", "  _doubleMap = other._doubleMap;\n", "")]),
    ("p18-clear-miss", "P18", [(GP, "    _doubleMap.clear();\n", "")]),
    ("p18-empty-miss", "P18", [(GP, " && _doubleMap.empty()", "")]),
    ("p18-load-from1", "P18", [(GP, "  for (size_t i = 0; i < keys.size(); ++i) {\n    map.emplace", "  for (size_t i = 1; i < keys.size(); ++i) {\n    map.emplace")]),
    ("p18-load-assign-first", "P18", [(GP, "map.emplace(std::move(keys[i]), std::move(values[i]));", "map.emplace(std::move(keys[i]), std::move(values[0]));")]),
    ("p18-getN", "P18", [(GP, "return it->second.size();", "return it->second.empty() ? 1 : it->second.size();")]),
    ("p18-print-miss", "P18", [("src/GenericParameters.cc", 'printMap(getMap<double>(), os);', 'printMap(getMap<float>(), os);')]),
    ("p18-frame-swap", "P18", [(FR, "putParameter<std::string>(key, std::move(value));", "putParameter<std::string>(value, std::move(key));")]),
]
BENIGN += [
    ("ok-params-brackets", "P18,P03", [(GP, "    map.insert_or_assign(key, std::move(value));", "    map[key] = std::move(value);")]),
    ("ok-params-count", "P18,P03", [(GP, "  if (const auto it = map.find(key); it != map.end()) {\n    return it->second.size();\n  }\n  return 0;", "  if (!map.contains(key)) {\n    return 0;\n  }\n  return map.at(key).size();")]),
    ("ok-params-loop", "P18,P03", [(GP, "    std::transform(map.begin(), map.end(), std::back_inserter(keys), [](const auto& pair) { return pair.first; });", "    for (auto it = map.cbegin(); it != map.cend(); ++it) {\n      keys.push_back(it->first);\n    }")]),
    ("ok-params-load-range", "P18,P03", [(GP, "  for (size_t i = 0; i < keys.size(); ++i) {\n    map.emplace(std::move(keys[i]), std::move(values[i]));", "  const auto n = keys.size();\n  for (size_t j = 0; j != n; j++) {\n    auto& v = values[j];\n    map.try_emplace(std::move(keys[j]), std::move(v));")]),
    ("ok-params-early", "P18,P03", [(GP, "    if (iv.empty()) {\n      return std::nullopt;\n    }\n    return iv[0];", "    return iv.size() > 0 ? std::optional<T>(iv.front()) : std::nullopt;")]),
]

T = "python/templates/"
CC, CD, OB, MC = T + "Collection.cc.jinja2", T + "CollectionData.cc.jinja2", T + "Obj.cc.jinja2", T + "macros/collections.jinja2"
CH = T + "Collection.h.jinja2"
LI, LD, LO, LK = ("include/podio/detail/LinkCollectionImpl.h", "include/podio/detail/LinkCollectionData.h",
                  "include/podio/detail/LinkObj.h", "include/podio/detail/Link.h")
MUTANTS += [
    ("p07-create-sub", "P07", [(CC, "  if (m_isSubsetColl) {\n    throw std::logic_error(\"Cannot create new elements", "  if (m_isSubsetColl && !m_storage.entries.empty()) {\n    throw std::logic_error(\"Cannot create new elements")]),
    ("p07-push-tracked", "P07", [(CC, "    if (obj->id.index == podio::ObjectID::untracked) {\n      obj->id = {static", "    if (obj->id.index == podio::ObjectID::untracked || obj->id.collectionID != m_collectionID) {\n      obj->id = {static")]),
    ("p07-push-zero", "P07", [(CC, "  if (obj->id.index < 0) {", "  if (obj->id.index <= 0) {")]),
    ("p07-push-id-first", "P07", [(CC, "    auto obj = object.m_obj;\n    if (obj->id.index == podio::ObjectID::untracked) {\n      obj->id = {static_cast<int>(m_storage.entries.size()), m_collectionID};\n      m_storage.entries.push_back(obj.release());", "    auto obj = object.m_obj;\n    m_storage.entries.push_back(obj.get());\n    if (obj->id.index == podio::ObjectID::untracked) {\n      obj->id = {static_cast<int>(m_storage.entries.size()), m_collectionID};\n      obj.release();")]),
    ("p07-link-char", "P07", [(LI, "if (!m_storage.entries.empty()) {\n      throw std::logic_error(\"Cannot change the ch", "if (setSubset && !m_storage.entries.empty()) {\n      throw std::logic_error(\"Cannot change the ch")]),
    ("p07-link-const", "P07", [(LI, "    if (!m_isSubsetColl) {\n      throw std::invalid_argument(\"Can only add", "    if (!m_isSubsetColl && !m_storage.entries.empty()) {\n      throw std::invalid_argument(\"Can only add")]),
    ("p07-from", "P07", [(LI, "    LinkCollection coll;\n    if constexpr (detail::RangeOf<R, value_type>) {\n      coll.setSubsetCollection();\n    }", "    LinkCollection coll;\n    if constexpr (detail::RangeOf<R, mutable_type>) {\n      coll.setSubsetCollection();\n    }")]),
    ("p33-noclear-refs", "P33", [(CD, "    for (const auto& pointer : m_refCollections) { pointer->clear(); }\n    return;\n", "    return;\n"), (CD, "void {{ class_type }}::prepareForWrite(bool isSubsetColl) {\n  for (const auto& pointer : m_refCollections) { pointer->clear(); }\n", "void {{ class_type }}::prepareForWrite(bool isSubsetColl) {\n  if (!isSubsetColl) for (const auto& pointer : m_refCollections) { pointer->clear(); }\n")]),
    ("p33-prepared", "P33", [(CC, "  m_storage.clear(m_isSubsetColl);\n  m_isPrepared = false;", "  m_storage.clear(m_isSubsetColl);\n  m_isPrepared = m_isPrepared && m_isSubsetColl;")]),
    ("p33-nodelete", "P33", [(CD, "  for (auto& obj : entries) { delete obj; }\n", "  for (auto& obj : entries) { if (obj->id.index < 0) delete obj; }\n")]),
    ("p33-sub-delete", "P33", [(CD, "  if (isSubsetColl) {\n    // We don't own the objects so no cleanup to do here\n    entries.clear();", "  if (isSubsetColl && m_data) {\n    // We don't own the objects so no cleanup to do here\n    entries.clear();")]),
    ("p33-tmp", "P33", [(CD, "  m_rel_{{ relation.name }}_tmp.clear();\n", "")]),
    ("p33-vecs", "P33", [(CD, "  m_vecs_{{ member.name }}.clear();\n", "")]),
    ("p33-link-del", "P33", [(LD, "    for (const auto& obj : entries) {\n      delete obj;\n    }\n", "")]),
    ("p33-link-id", "P33", [(LI, "    m_storage.clear(m_isSubsetColl);\n    m_isPrepared = false;", "    m_storage.clear(m_isSubsetColl);\n    m_collectionID = 0;\n    m_isPrepared = false;")]),
]
BENIGN += [
    ("ok-coll-clear", "P07,P33", [(CD, "  for (auto& obj : entries) { delete obj; }\n  entries.clear();\n", "  for (std::size_t k = 0; k < entries.size(); ++k) { delete entries[k]; }\n  entries.clear();\n"),
                                  (CD, "  if (m_data) {\n    m_data->clear();\n  }\n", "  if (auto* d = m_data.get()) {\n    d->clear();\n  }\n")]),
    ("ok-coll-push", "P07,P33", [(CC, "    if (obj->id.index == podio::ObjectID::untracked) {\n      obj->id = {static_cast<int>(m_storage.entries.size()), m_collectionID};\n      m_storage.entries.push_back(obj.release());", "    const bool isFree = obj->id.index < 0;\n    if (isFree) {\n      obj->id.collectionID = m_collectionID;\n      obj->id.index = static_cast<int>(m_storage.entries.size());\n      m_storage.entries.emplace_back(obj.release());")]),
    ("ok-link-clear", "P07,P33", [(LD, "    for (const auto& obj : entries) {\n      delete obj;\n    }\n", "    std::for_each(entries.begin(), entries.end(), [](auto* o) { delete o; });\n")]),
]
MUTANTS += [
    ("p08-create-idx", "P08", [(CC, "obj->id = {int(m_storage.entries.size() - 1), m_collectionID};", "obj->id = {int(m_storage.entries.size()), m_collectionID};")]),
    ("p08-push-idx", "P08", [(CC, "      obj->id = {static_cast<int>(m_storage.entries.size()), m_collectionID};\n      m_storage.entries.push_back(obj.release());", "      m_storage.entries.push_back(obj.release());\n      obj->id = {static_cast<int>(m_storage.entries.size()), m_collectionID};")]),
    ("p08-push-noid", "P08", [(CC, "      obj->id = {static_cast<int>(m_storage.entries.size()), m_collectionID};\n", "      obj->id.index = static_cast<int>(m_storage.entries.size());\n")]),
    ("p08-read-id", "P08", [(CD, "    ++index;\n", "    if (entries.size() > 1) ++index;\n")]),
    ("p08-setid-sub", "P08", [(CH, "if (!m_isSubsetColl) {", "if (!m_isSubsetColl || m_isPrepared) {")]),
    ("p08-setid-skip", "P08", [(LI, "std::ranges::for_each(m_storage.entries, [id](auto* obj) { obj->id = {obj->id.index, id}; });", "std::ranges::for_each(m_storage.entries, [id](auto* obj) { if (obj->id.index > 0) obj->id = {obj->id.index, id}; });")]),
    ("p08-setid-lost", "P08", [(LI, "    m_collectionID = id;\n    if (!m_isSubsetColl) {", "    if (!m_isSubsetColl) {\n      m_collectionID = id;")]),
    ("p08-copy-id", "P08", [(OB, "{{ obj_type }}::{{ obj_type }}(const {{ obj_type }}& other) :\n  data(other.data)", "{{ obj_type }}::{{ obj_type }}(const {{ obj_type }}& other) :\n  id(other.id), data(other.data)")]),
    ("p08-sub-push", "P08", [(CC, "  m_storage.entries.push_back(obj.release());\n}", "  if (obj->id.collectionID == 0) obj->id.collectionID = m_collectionID;\n  m_storage.entries.push_back(obj.release());\n}")]),
    ("p08-clear-id", "P08", [(CD, "    entries.clear();\n    // Clear the ObjectID", "    for (auto* e : entries) e->id.index = -1;\n    entries.clear();\n    // Clear the ObjectID")]),
]
BENIGN += [
    ("ok-ids", "P08,P07,P33", [(CC, "  auto obj = m_storage.entries.emplace_back(new {{ class.bare_type }}Obj());\n", "  const auto nth = static_cast<int>(m_storage.entries.size());\n  auto obj = m_storage.entries.emplace_back(new {{ class.bare_type }}Obj());\n"),
      (CC, "  obj->id = {int(m_storage.entries.size() - 1), m_collectionID};", "  obj->id.collectionID = this->getID();\n  obj->id.index = nth;"),
      (CD, "  int index = 0;\n  for (const auto& data : *m_data) {\n    auto obj = new {{ class.bare_type }}Obj({index, collectionID}, data);", "  for (std::size_t n = 0; n < m_data->size(); ++n) {\n    auto* obj = new {{ class.bare_type }}Obj({static_cast<int>(n), collectionID}, (*m_data)[n]);"), (CD, "    ++index;\n", "")]),
]
MUTANTS += [
    ("p13-guard", "P13", [(CC, "  m_storage.prepareForWrite(m_isSubsetColl);\n  m_isPrepared = true;", "  m_isPrepared = true;\n  m_storage.prepareForWrite(m_isSubsetColl);")]),
    ("p13-noguard", "P13", [(LI, "    // succeeded, so we need to check again now\n    if (m_isPrepared) {\n      return;\n    }", "    // succeeded, so we need to check again now")]),
    ("p13-stale-ref", "P13", [(CD, "void {{ class_type }}::prepareForWrite(bool isSubsetColl) {\n  for (const auto& pointer : m_refCollections) { pointer->clear(); }\n", "void {{ class_type }}::prepareForWrite(bool isSubsetColl) {\n  if (!isSubsetColl) for (const auto& pointer : m_refCollections) { pointer->clear(); }\n")]),
    ("p13-unfix", "P13", [(CD, "  m_data->clear();\n{% for member in VectorMembers %}\n  m_vec_{{ member.name }}->clear();\n{% endfor %}\n  m_data->reserve", "  m_data->reserve")]),
    ("p13-begin", "P13", [(MC, "    {{ relation.name }}_index = (*m_data)[i].{{ relation.name }}_end;\n", "    {{ relation.name }}_index += (*m_data)[i].{{ relation.name }}_end - i;\n")]),
    ("p13-end", "P13", [(MC, "    (*m_data)[i].{{ relation.name }}_end += {{ relation.name }}_index;\n", "    (*m_data)[i].{{ relation.name }}_end = {{ relation.name }}_index + m_refCollections.size();\n")]),
    ("p13-skip-untracked", "P13", [(MC, '        throw std::runtime_error("Trying to persistify relation \\"{{ relation.name }}\\" that points to untracked object");', '        continue;')]),
    ("p13-vec-first", "P13", [(MC, "    for (const auto& it : (*m_vecs_{{ member.name }}[i])) { m_vec_{{ member.name }}->push_back(it); }", "    for (size_t k = 1; k < m_vecs_{{ member.name }}[i]->size(); ++k) { m_vec_{{ member.name }}->push_back((*m_vecs_{{ member.name }}[i])[k]); }")]),
    ("p13-vec-dup", "P13", [(MC, "{ m_vec_{{ member.name }}->push_back(it); }", "{ m_vec_{{ member.name }}->push_back(m_vecs_{{ member.name }}[i]->front()); }")]),
    ("p13-null-one", "P13", [(MC, "      m_refCollections[{{ real_index }}]->push_back({podio::ObjectID::invalid, 0});", "      if (entries.size() > 1) m_refCollections[{{ real_index }}]->push_back({podio::ObjectID::invalid, 0});")]),
    ("p13-null-zero", "P13", [(MC, "      m_refCollections[{{ real_index }}]->push_back({podio::ObjectID::invalid, 0});", "      m_refCollections[{{ real_index }}]->push_back({0, 0});")]),
    ("p13-data-rev", "P13", [(CD, "  for (const auto& obj : entries) { m_data->push_back(obj->data); }", "  for (auto it = entries.rbegin(); it != entries.rend(); ++it) { m_data->push_back((*it)->data); }")]),
    ("p13-data-skip", "P13", [(CD, "  for (const auto& obj : entries) { m_data->push_back(obj->data); }", "  for (const auto& obj : entries) { if (obj->id.index >= 0) m_data->push_back(obj->data); }")]),
    ("p13-sub-own", "P13", [(CD, "      m_refCollections[0]->emplace_back(obj->id);\n    }\n    return;", "      m_refCollections[0]->emplace_back(entries.front()->id);\n    }\n    return;")]),
    ("p13-sub-twice", "P13", [(LD, "        m_refCollections[0]->emplace_back(obj->id);", "        m_refCollections[0]->emplace_back(obj->id);\n        if (obj->id.index == 0) m_refCollections[0]->emplace_back(obj->id);")]),
    ("p13-link-same", "P13", [(LD, "        m_refCollections[1]->emplace_back(obj->m_to->getObjectID());", "        m_refCollections[1]->emplace_back(obj->m_to->getObjectID());\n        if (obj->m_from) obj->data.weight = 1;")]),
]
BENIGN += [
    ("ok-prepare", "P13,P33,P07", [
      (MC, "    for (const auto& it : (*m_vecs_{{ member.name }}[i])) { m_vec_{{ member.name }}->push_back(it); }", "    m_vec_{{ member.name }}->insert(m_vec_{{ member.name }}->end(), m_vecs_{{ member.name }}[i]->begin(), m_vecs_{{ member.name }}[i]->end());"),
      (CD, "  for (const auto& obj : entries) { m_data->push_back(obj->data); }", "  std::transform(entries.begin(), entries.end(), std::back_inserter(*m_data), [](const auto* o) { return o->data; });"),
      (MC, "      if (it.getObjectID().index == podio::ObjectID::untracked) {", "      const auto targetID = it.getObjectID();\n      if (targetID.index == podio::ObjectID::untracked) {"),
      (MC, "      m_refCollections[{{ index }}]->emplace_back(it.getObjectID());\n    }", "      m_refCollections[{{ index }}]->push_back(targetID);\n    }"),
    ]),
    ("ok-prepare-2", "P13,P33,P07", [
      (MC, "    {{ relation.name }}_index = (*m_data)[i].{{ relation.name }}_end;\n", "    {{ relation.name }}_index += sz_{{ relation.name }};\n"),
      (MC, "    (*m_data)[i].{{ relation.name }}_end += {{ relation.name }}_index;\n", "    const auto sz_{{ relation.name }} = (*m_data)[i].{{ relation.name }}_end;\n    (*m_data)[i].{{ relation.name }}_end = {{ relation.name }}_index + sz_{{ relation.name }};\n"),
      (MC, "  for (auto& obj : entries) {\n    if (obj->m_{{ relation.name }}) {\n      m_refCollections[{{ real_index }}]->emplace_back(obj->m_{{ relation.name }}->getObjectID());\n    } else {\n      m_refCollections[{{ real_index }}]->push_back({podio::ObjectID::invalid, 0});\n    }\n  }", "  auto& buf_{{ relation.name }} = *m_refCollections[{{ real_index }}];\n  for (size_t n = 0; n < entries.size(); ++n) {\n    const auto* obj = entries[n];\n    if (!obj->m_{{ relation.name }}) {\n      buf_{{ relation.name }}.push_back({podio::ObjectID::invalid, 0});\n      continue;\n    }\n    buf_{{ relation.name }}.push_back(obj->m_{{ relation.name }}->getObjectID());\n  }"),
    ]),
    ("ok-prepare-3", "P13,P33,P07", [
      (CC, "  if (m_isPrepared) {\n    return;\n  }\n  m_storage.prepareForWrite(m_isSubsetColl);\n  m_isPrepared = true;", "  if (!m_isPrepared) {\n    m_storage.prepareForWrite(m_isSubsetColl);\n    m_isPrepared = true;\n  }"),
    ]),
]
RH = "include/podio/detail/RelationIOHelpers.h"
MUTANTS += [
    ("p10-link-slot", "P10", [(LD, "const auto id = (*m_refCollections[1])[i];", "const auto id = (*m_refCollections[0])[i];")]),
    ("p10-link-wslot", "P10", [(LD, "m_refCollections[1]->emplace_back(obj->m_to->getObjectID());", "m_refCollections[0]->emplace_back(obj->m_to->getObjectID());")]),
    ("p10-link-null", "P10", [(LD, "      if (obj->m_to) {\n        m_refCollections[1]->emplace_back(obj->m_to->getObjectID());\n      } else {\n        m_refCollections[1]", "      if (obj->m_to) {\n        m_refCollections[1]->emplace_back(obj->m_to->getObjectID());\n      } else {\n        m_refCollections[0]")]),
    ("p10-link-last", "P10", [(LD, "    for (size_t i = 0; i < entries.size(); ++i) {\n      const auto id = (*m_refCollections[1])[i];", "    for (size_t i = 1; i < entries.size(); ++i) {\n      const auto id = (*m_refCollections[1])[i];")]),
    ("p10-link-shift", "P10", [(LD, "podio::detail::addSingleRelation(entries[i]->m_to, coll, id);", "podio::detail::addSingleRelation(entries[id.index]->m_to, coll, id);")]),
    ("p10-link-sub-skip", "P10", [(LD, "        entries.push_back(obj);\n      }\n      return true;", "        if (obj) {\n          entries.push_back(obj);\n        }\n      }\n      return true;")]),
    ("p10-link-sub-idx", "P10", [(LD, "tmp_coll->m_storage.entries[id.index];", "tmp_coll->m_storage.entries[entries.size()];")]),
    ("p10-link-bufs", "P10", [(LI, "const auto nRefs = subsetColl ? 1 : 2;", "const auto nRefs = 2;")]),
    ("p10-link-ctor", "P10", [(LD, "    m_refCollections.reserve(2);\n    m_refCollections.emplace_back(std::make_unique<std::vector<podio::ObjectID>>());\n", "    m_refCollections.reserve(2);\n")]),
    ("p10-iface-drop", "P10", [(RH, "  if (auto typedColl = dynamic_cast<const typename T::collection_type*>(coll)) {\n    const T tmp", "  if (auto typedColl = dynamic_cast<const typename T::collection_type*>(coll); typedColl && relElements.size() != typedColl->size()) {\n    const T tmp")]),
    ("p10-iface-first", "P10", [(RH, "relation = std::make_unique<InterfaceType>((*typeColl)[id.index]);", "relation = std::make_unique<InterfaceType>((*typeColl)[0]);")]),
    ("p10-single-id", "P10", [(RH, "    relElements.emplace_back((*typeColl)[id.index]);", "    relElements.emplace_back((*typeColl)[id.index > 0 ? id.index : 0]);"), (RH, "    const auto* typeColl = static_cast<const typename RelType::collection_type*>(coll);\n    relElements", "    const auto* typeColl = static_cast<const typename RelType::collection_type*>(coll);\n    if (relElements.size() < typeColl->size()) relElements")]),
    ("p10-many-skip", "P10", [(MC, "        m_rel_{{ relation.name }}->emplace_back({{ relation.full_type }}::makeEmpty());\n        continue;", "        continue;")]),
    ("p10-many-slot", "P10", [(MC, "for (unsigned int i = 0, size = m_refCollections[{{ index }}]->size(); i != size; ++i) {\n    const auto id", "for (unsigned int i = 0, size = m_refCollections[0]->size(); i != size; ++i) {\n    const auto id")]),
    ("p10-one-slot", "P10", [(CD, "macros.prepare_for_write_single_relation(relation, loop.index0, OneToManyRelations | length)", "macros.prepare_for_write_single_relation(relation, loop.revindex0, OneToManyRelations | length)")]),
    ("p10-home", "P10", [(CD, "    obj->m_{{ member.name }} = m_vec_{{ member.name }}.get();", "    obj->m_{{ member.name }} = m_vec_{{ member.name }}.get(){% if loop.last and loop.first == false and VectorMembers[0].full_type == member.full_type %}, obj->m_{{ member.name }} = m_vec_{{ VectorMembers[0].name }}.get(){% endif %};")]),
    ("p10-vec-read", "P10", [(CD, "m_vecmem_info[{{ loop.index0 }}].second));", "m_vecmem_info[{{ loop.revindex0 }}].second));")]),
    ("p10-vec-write", "P10", [(CD, "    m_vecmem_info[{{ loop.index0 }}].second = &", "    m_vecmem_info[{{ loop.revindex0 }}].second = &")]),
    ("p10-vec-type", "P10", [(MC, '->emplace_back("{{ member.full_type }}", new std::vector<{{ member.full_type }}>);', '->emplace_back("{{ member.full_type }}", new std::vector<{{ VectorMembers[0].full_type }}>);')]),
    ("p10-nrefs", "P10", [(MC, "isSubset ? 1 : {{ OneToManyRelations | length }} + {{ OneToOneRelations | length }};", "isSubset ? 1 : {{ OneToManyRelations | length }};")]),
]
BENIGN += [
    ("ok-p10-link", "P10,P13,P33,P07,P08", [
      (LD, "    for (size_t i = 0; i < entries.size(); ++i) {\n      const auto id = (*m_refCollections[1])[i];\n      if (id.index != podio::ObjectID::invalid) {\n        podio::CollectionBase* coll = nullptr;\n        if (!collectionProvider->get(id.collectionID, coll)) {\n          entries[i]->m_to = nullptr;\n          continue;\n        }\n        podio::detail::addSingleRelation(entries[i]->m_to, coll, id);\n      } else {\n        entries[i]->m_to = nullptr;\n      }\n    }\n",
           "    connect(entries, *m_refCollections[1], collectionProvider);\n"),
      (LD, "  void makeSubsetCollection() {", "  template <typename E>\n  static void connect(E& objs, const std::vector<podio::ObjectID>& ids, const podio::ICollectionProvider* prov) {\n    for (size_t k = 0, n = objs.size(); k != n; ++k) {\n      podio::CollectionBase* coll = nullptr;\n      if (ids[k].index == podio::ObjectID::invalid || !prov->get(ids[k].collectionID, coll)) {\n        objs[k]->m_to = nullptr;\n      } else {\n        podio::detail::addSingleRelation(objs[k]->m_to, coll, ids[k]);\n      }\n    }\n  }\n\n  void makeSubsetCollection() {"),
      (LD, "      for (const auto& id : *m_refCollections[0]) {\n        podio::CollectionBase* coll{nullptr};\n        LinkObj<FromT, ToT>* obj{nullptr};\n        if (collectionProvider->get(id.collectionID, coll)) {\n          auto* tmp_coll = static_cast<LinkCollection<FromT, ToT>*>(coll);\n          obj = tmp_coll->m_storage.entries[id.index];\n        }\n        entries.push_back(obj);\n      }\n",
           "      auto& ids = *m_refCollections.front();\n      for (size_t k = 0; k < ids.size(); ++k) {\n        podio::CollectionBase* coll{nullptr};\n        if (!collectionProvider->get(ids[k].collectionID, coll)) {\n          entries.push_back(nullptr);\n          continue;\n        }\n        entries.push_back(static_cast<LinkCollection<FromT, ToT>*>(coll)->m_storage.entries[ids[k].index]);\n      }\n")]),
    ("ok-p10-gen", "P10,P13,P33,P07,P08", [
      (RH, "    const T tmp = (*typedColl)[id.index];\n    relElements.emplace_back(tmp);", "    relElements.push_back(InterfaceType((*typedColl)[id.index]));"),
      (CD, "    obj->m_{{ relation.name }} = m_rel_{{ relation.name }}.get();", "    obj->m_{{ relation.name }} = &*m_rel_{{ relation.name }};"),
      (MC, "  for (auto& ref : *readBuffers.references) {\n    // Make sure to place usable buffer pointers here\n    ref = std::make_unique<std::vector<podio::ObjectID>>();\n  }", "  for (size_t k = 0; k < readBuffers.references->size(); ++k) {\n    (*readBuffers.references)[k] = std::make_unique<std::vector<podio::ObjectID>>();\n  }")]),
]
MS = "include/podio/utilities/MaybeSharedPtr.h"
DT = """    if (m_ctrlBlock && --m_ctrlBlock->count == 0) {
      // When the reference count reaches 0 we have to clean up control block in
      // any case, but first we have to find out whether we also need to clean
      // up the "managed" pointer
      if (m_ctrlBlock->owned) {
        delete m_ptr;
      }
      delete m_ctrlBlock;
    }
"""
MUTANTS += [
    ("p26-noinc", "P26", [(MS, "    m_ctrlBlock && m_ctrlBlock->count++;", "    m_ctrlBlock && m_ctrlBlock->owned && m_ctrlBlock->count++;")]),
    ("p26-load", "P26", [(MS, DT, DT.replace("m_ctrlBlock && --m_ctrlBlock->count == 0", "m_ctrlBlock && (--m_ctrlBlock->count, m_ctrlBlock->count == 0)"))]),
    ("p26-post", "P26", [(MS, DT, DT.replace("--m_ctrlBlock->count == 0", "m_ctrlBlock->count-- == 0"))]),
    ("p26-leak-block", "P26", [(MS, DT, DT.replace("        delete m_ptr;\n      }\n      delete m_ctrlBlock;\n", "        delete m_ptr;\n        delete m_ctrlBlock;\n      }\n"))]),
    ("p26-order", "P26", [(MS, DT, DT.replace("      if (m_ctrlBlock->owned) {\n        delete m_ptr;\n      }\n      delete m_ctrlBlock;\n", "      auto* block = m_ctrlBlock;\n      delete m_ctrlBlock;\n      if (block->owned) {\n        delete m_ptr;\n      }\n"))]),
    ("p26-owned-early", "P26", [(MS, DT, DT.replace("if (m_ctrlBlock && --m_ctrlBlock->count == 0)", "if (m_ctrlBlock && m_ctrlBlock->owned && --m_ctrlBlock->count == 0)"))]),
    ("p26-move-keep", "P26", [(MS, "    other.m_ptr = nullptr;\n    other.m_ctrlBlock = nullptr;\n", "    other.m_ptr = nullptr;\n")]),
    ("p26-release-drop", "P26", [(MS, "      m_ctrlBlock->owned = false;\n", "      m_ctrlBlock->owned = false;\n      if (m_ctrlBlock->count == 1) {\n        delete m_ctrlBlock;\n        m_ctrlBlock = nullptr;\n      }\n")]),
    ("p26-release-last", "P26", [(MS, "      m_ctrlBlock->owned = false;\n", "      m_ctrlBlock->owned = m_ctrlBlock->count > 1;\n")]),
    ("p26-swap", "P26", [(MS, "  swap(a.m_ctrlBlock, b.m_ctrlBlock);\n", "  if (a.m_ctrlBlock && b.m_ctrlBlock) {\n    swap(a.m_ctrlBlock, b.m_ctrlBlock);\n  }\n")]),
    ("p26-assign-ref", "P26", [(MS, "  MaybeSharedPtr& operator=(MaybeSharedPtr other) {\n    swap(*this, other);\n", "  MaybeSharedPtr& operator=(const MaybeSharedPtr& other) {\n    this->~MaybeSharedPtr();\n    new (this) MaybeSharedPtr(other);\n")]),
    ("p26-assign-ref2", "P26", [(MS, "  MaybeSharedPtr& operator=(MaybeSharedPtr other) {\n    swap(*this, other);\n", "  MaybeSharedPtr& operator=(const MaybeSharedPtr& other) {\n    if (m_ctrlBlock && --m_ctrlBlock->count == 0) {\n      if (m_ctrlBlock->owned) {\n        delete m_ptr;\n      }\n      delete m_ctrlBlock;\n    }\n    m_ptr = other.m_ptr;\n    m_ctrlBlock = other.m_ctrlBlock;\n    m_ctrlBlock && m_ctrlBlock->count++;\n")]),
    ("p26-nonatomic", "P26", [(MS, "    std::atomic<unsigned> count{1};", "    unsigned count{1};")]),
    ("p26-count0", "P26", [(MS, "    std::atomic<unsigned> count{1};", "    std::atomic<unsigned> count{0};")]),
    ("p26-copy-raw", "P26", [(LK, "  LinkT(const LinkT& other) = default;", "  LinkT(const LinkT& other) : m_obj(other.m_obj.get()) {\n  }")]),
    ("p26-conv-raw", "P26", [(LK, "    return Link<FromU, ToU>(m_obj);", "    return Link<FromU, ToU>(m_obj.get());")]),
    ("p26-link-clone", "P26", [(LK, "podio::utils::MaybeSharedPtr(tmp, podio::utils::MarkOwned)", "podio::utils::MaybeSharedPtr(tmp)")]),
    ("p26-push-get", "P26", [(LI, "m_storage.entries.push_back(obj.release());", "m_storage.entries.push_back(obj.get());")]),
]
BENIGN += [
    ("ok-msp-1", "P26,P03,P07,P08", [
        (MS, "    m_ctrlBlock && m_ctrlBlock->count++;", "    if (m_ctrlBlock != nullptr) {\n      m_ctrlBlock->count.fetch_add(1);\n    }"),
        (MS, DT, DT.replace("--m_ctrlBlock->count == 0", "m_ctrlBlock->count.fetch_sub(1) == 1").replace("if (m_ctrlBlock->owned) {", "if (m_ctrlBlock->owned.load()) {")),
        (MS, "m_ctrlBlock->owned = false;", "m_ctrlBlock->owned.store(false);"),
        (MS, "  MaybeSharedPtr(MaybeSharedPtr&& other) : m_ptr(other.m_ptr), m_ctrlBlock(other.m_ctrlBlock) {\n    other.m_ptr = nullptr;\n    other.m_ctrlBlock = nullptr;\n", "  MaybeSharedPtr(MaybeSharedPtr&& other) :\n      m_ptr(std::exchange(other.m_ptr, nullptr)), m_ctrlBlock(std::exchange(other.m_ctrlBlock, nullptr)) {\n"),
        (MS, "#include <atomic>", "#include <atomic>\n#include <utility>")]),
    ("ok-msp-2", "P26,P03,P07,P08", [
        (MS, DT, "    dropRef();\n"),
        (MS, "  T* m_ptr{nullptr};\n", "  void dropRef() {\n    if (!m_ctrlBlock) {\n      return;\n    }\n    if (--m_ctrlBlock->count != 0) {\n      return;\n    }\n    if (m_ctrlBlock->owned) {\n      delete m_ptr;\n    }\n    delete m_ctrlBlock;\n  }\n\n  T* m_ptr{nullptr};\n"),
        (MS, "  MaybeSharedPtr& operator=(MaybeSharedPtr other) {\n    swap(*this, other);\n", "  MaybeSharedPtr& operator=(const MaybeSharedPtr& other) {\n    MaybeSharedPtr tmp(other);\n    swap(*this, tmp);\n")]),
    ("ok-msp-3", "P26,P03,P07,P08", [
        (MS, "  swap(a.m_ptr, b.m_ptr);\n  swap(a.m_ctrlBlock, b.m_ctrlBlock);\n", "  auto* p = a.m_ptr;\n  a.m_ptr = b.m_ptr;\n  b.m_ptr = p;\n  swap(a.m_ctrlBlock, b.m_ctrlBlock);\n"),
        (MS, "    if (m_ctrlBlock) {\n      // From now on we only need to keep track of the control block\n      m_ctrlBlock->owned = false;\n    }\n    return m_ptr;", "    auto* const result = get();\n    if (!m_ctrlBlock) {\n      return result;\n    }\n    m_ctrlBlock->owned = false;\n    return result;")]),
]
NV = "include/podio/LinkNavigator.h"
LIT = "include/podio/detail/LinkCollectionIterator.h"
MUTANTS += [
    ("p19-get-to", "P19", [(LK, "    return ToT(*(m_obj->m_to));", "    if constexpr (std::is_same_v<FromT, ToT>) {\n      return ToT(*(m_obj->m_from));\n    } else {\n      return ToT(*(m_obj->m_to));\n    }")]),
    ("p19-get-test", "P19", [(LK, "    if (!m_obj->m_to) {\n      return ToT::makeEmpty();", "    if (!m_obj->m_from) {\n      return ToT::makeEmpty();")]),
    ("p19-set-iface", "P19", [(LK, "  void setTo(ToU value) {\n    setTo(ToT(value));", "  void setTo(ToU value) {\n    if (!m_obj->m_to) {\n      setTo(ToT(value));\n    }")]),
    ("p19-set-mut", "P19", [(LK, "    setFrom(detail::GetDefaultHandleType<FromU>(value));", "    if constexpr (std::is_same_v<FromT, ToT>) {\n      setTo(detail::GetDefaultHandleType<FromU>(value));\n    } else {\n      setFrom(detail::GetDefaultHandleType<FromU>(value));\n    }")]),
    ("p19-set-typed", "P19", [(LK, "                         !detail::isInterfaceInitializableFrom<ToT, T>) {\n      setFrom(std::move(value));", "                         !detail::isInterfaceInitializableFrom<ToT, T>) {\n      m_obj->m_to.reset();\n      setFrom(std::move(value));")]),
    ("p19-weight", "P19", [(LK, "    m_obj->data.weight = value;", "    m_obj->data = LinkData{value > 0 ? value : 0};")]),
    ("p19-ctor-weight", "P19", [(LO, "LinkObj(const podio::ObjectID id_, LinkData data_) : id(id_), data(data_)", "LinkObj(const podio::ObjectID id_, LinkData data_) : id(id_), data(id_.index < 0 ? LinkData{1.f} : data_)")]),
    ("p19-new-weight", "P19", [(LO, "data(LinkData{1.0f})", "data(LinkData{})")]),
    ("p19-clone-swap", "P19", [(LK, "        tmp->m_to = std::make_unique<ToT>(*m_obj->m_to);", "        if constexpr (std::is_same_v<FromT, ToT>) {\n          tmp->m_to = std::make_unique<ToT>(*m_obj->m_from);\n        } else {\n          tmp->m_to = std::make_unique<ToT>(*m_obj->m_to);\n        }")]),
    ("p19-clone-both", "P19", [(LK, "      if (m_obj->m_from) {\n        tmp->m_from", "      if (m_obj->m_from && m_obj->m_to) {\n        tmp->m_from")]),
    ("p19-clone-always", "P19", [(LK, "    if (cloneRelations) {\n      if (m_obj->m_from) {", "    if (cloneRelations || !m_obj->m_to) {\n      if (m_obj->m_from) {")]),
    ("p19-write", "P19", [(LD, "m_refCollections[0]->emplace_back(obj->m_from->getObjectID());", "m_refCollections[1]->emplace_back(obj->m_from->getObjectID());"), (LD, "m_refCollections[1]->emplace_back(obj->m_to->getObjectID());", "m_refCollections[0]->emplace_back(obj->m_to->getObjectID());")]),
    ("p19-read", "P19", [(LD, "const auto id = (*m_refCollections[1])[i];", "const auto id = (*m_refCollections[0])[i];")]),
    ("p19-load", "P19", [(LD, "    for (const auto data : *m_data) {\n      auto obj = new LinkObj<FromT, ToT>({index++, collectionID}, data);", "    for (const auto data : *m_data) {\n      (void)data;\n      auto obj = new LinkObj<FromT, ToT>({index++, collectionID}, m_data->front());")]),
    ("p20-weight", "P20", [(NV, "std::forward_as_tuple(to), std::forward_as_tuple(from, weight));", "std::forward_as_tuple(to), std::forward_as_tuple(from, 1.f));")]),
    ("p20-dup", "P20", [(NV, "std::multimap<FromT, WeightedObject<ToT>> m_from2to{};", "std::map<FromT, WeightedObject<ToT>> m_from2to{};")]),
    ("p20-self", "P20", [(NV, "    m_to2from.emplace(", "    if (weight == 0) {\n      continue;\n    }\n    m_to2from.emplace(")]),
    ("p20-dirtag", "P20", [(NV, "    return getLinkedTo(FromT(object));", "    if constexpr (std::is_same_v<FromT, ToT>) {\n      return getLinkedFrom(FromT(object));\n    } else {\n      return getLinkedTo(FromT(object));\n    }")]),
    ("p20-tag", "P20", [(NV, "  std::vector<WeightedObject<ToT>> getLinked(const FromT& object, podio::detail::links::ReturnToTag) const {\n    return getLinkedTo(object);", "  std::vector<WeightedObject<ToT>> getLinked(const FromT& object, podio::detail::links::ReturnToTag) const {\n    if constexpr (std::is_same_v<FromT, ToT>) {\n      return getLinkedFrom(object);\n    } else {\n      return getLinkedTo(object);\n    }")]),
    ("p20-first", "P20", [(NV, "    const auto& [begin, end] = m_from2to.equal_range(object);", "    const auto begin = m_from2to.find(object);\n    const auto end = begin == m_from2to.end() ? begin : std::next(begin);")]),
    ("p20-lower", "P20", [(NV, "    const auto& [begin, end] = m_from2to.equal_range(object);", "    const auto begin = m_from2to.lower_bound(object);\n    const auto end = m_from2to.end();")]),
    ("p20-swapmaps", "P20", [(NV, "    m_from2to.emplace(std::piecewise_construct, std::forward_as_tuple(from), std::forward_as_tuple(to, weight));", "    if constexpr (std::is_same_v<FromT, ToT>) {\n      m_from2to.emplace(std::piecewise_construct, std::forward_as_tuple(to), std::forward_as_tuple(from, weight));\n    } else {\n      m_from2to.emplace(std::piecewise_construct, std::forward_as_tuple(from), std::forward_as_tuple(to, weight));\n    }")]),
]
BENIGN += [
    ("ok-nav-index", "P20", [(NV, "  for (const auto& [from, to, weight] : links) {\n", "  for (std::size_t i = 0; i < links.size(); ++i) {\n    const auto link = links[i];\n    const auto from = link.getFrom();\n    const auto to = link.getTo();\n    const float weight = link.getWeight();\n")]),
    ("ok-nav-insert", "P20", [(NV, "    m_from2to.emplace(std::piecewise_construct, std::forward_as_tuple(from), std::forward_as_tuple(to, weight));", "    m_from2to.insert({from, WeightedObject<ToT>{to, weight}});")]),
    ("ok-nav-emplace", "P20", [(NV, "    m_to2from.emplace(std::piecewise_construct, std::forward_as_tuple(to), std::forward_as_tuple(from, weight));", "    WeightedObject<FromT> source{from, weight};\n    m_to2from.emplace(to, std::move(source));"), (NV, "for (const auto& [from, to, weight] : links) {", "for (const auto& link : links) {\n    const auto& [from, to, weight] = link;")]),
    ("ok-nav-iter", "P20", [(NV, "    const auto& [begin, end] = m_from2to.equal_range(object);\n    std::vector<WeightedObject<ToT>> result;\n    result.reserve(std::distance(begin, end));\n\n    for (auto it = begin; it != end; ++it) {\n      result.emplace_back(it->second);\n    }", "    const auto range = m_from2to.equal_range(object);\n    std::vector<WeightedObject<ToT>> result;\n    for (auto it = range.first; it != range.second; it++) {\n      const auto& [o, weight] = it->second;\n      result.emplace_back(o, weight);\n    }")]),
    ("ok-nav-bounds", "P20", [(NV, "    const auto& [begin, end] = m_from2to.equal_range(object);\n", "    const auto begin = m_from2to.lower_bound(object);\n    const auto end = m_from2to.upper_bound(object);\n")]),
    ("ok-nav-helper", "P20", [(NV, "    const auto& [begin, end] = m_from2to.equal_range(object);\n    std::vector<WeightedObject<ToT>> result;\n    result.reserve(std::distance(begin, end));\n\n    for (auto it = begin; it != end; ++it) {\n      result.emplace_back(it->second);\n    }\n    return result;", "    return lookup(m_from2to, object);"),
        (NV, "private:\n  std::multimap<FromT", "private:\n  template <typename Map>\n  static std::vector<typename Map::mapped_type> lookup(const Map& map, const typename Map::key_type& key) {\n    std::vector<typename Map::mapped_type> result;\n    auto [it, last] = map.equal_range(key);\n    while (it != last) {\n      result.push_back(it->second);\n      ++it;\n    }\n    return result;\n  }\n\n  std::multimap<FromT")]),
    ("ok-link-get", "P19,P26", [(LK, "    if (!m_obj->m_to) {\n      return ToT::makeEmpty();\n    }\n    return ToT(*(m_obj->m_to));", "    return m_obj->m_to ? *m_obj->m_to : ToT::makeEmpty();"), (LK, "    m_obj->m_from = std::make_unique<detail::GetDefaultHandleType<FromU>>(value);", "    m_obj->m_from.reset(new FromT(std::move(value)));")]),
    ("ok-link-clone", "P19,P26", [(LK, "      if (m_obj->m_from) {\n        tmp->m_from = std::make_unique<FromT>(*m_obj->m_from);\n      }\n      if (m_obj->m_to) {\n        tmp->m_to = std::make_unique<ToT>(*m_obj->m_to);\n      }", "      const auto copyEnd = [](const auto& src, auto& dst) {\n        if (src) {\n          dst = std::make_unique<std::decay_t<decltype(*src)>>(*src);\n        }\n      };\n      copyEnd(m_obj->m_from, tmp->m_from);\n      copyEnd(m_obj->m_to, tmp->m_to);")]),
    ("ok-link-get2", "P19", [(LK, "    if constexpr (Index == 0) {\n      return getFrom();\n    } else if constexpr (Index == 1) {\n      return getTo();\n    } else {\n      return getWeight();\n    }", "    return std::get<Index>(std::make_tuple(getFrom(), getTo(), getWeight()));")]),
    ("ok-link-after", "P19,P10,P08", [(LD, "    int index = 0;\n    for (const auto data : *m_data) {\n      auto obj = new LinkObj<FromT, ToT>({index++, collectionID}, data);\n      entries.emplace_back(obj);\n    }", "    for (size_t i = 0; i < m_data->size(); ++i) {\n      entries.push_back(new LinkObj<FromT, ToT>({static_cast<int>(i), collectionID}, m_data->at(i)));\n    }")]),
]
UD = "include/podio/UserDataCollection.h"
US = "src/UserDataCollection.cc"
TH = "include/podio/utilities/TypeHelpers.h"
MUTANTS += [
    ("p24-at-const", "P24", [(UD, "const_reference at(size_t idx) const {\n    return _vec.at(idx);", "const_reference at(size_t idx) const {\n    return _vec[idx];")]),
    ("p24-at-wrap", "P24", [(UD, "::reference at(size_t idx) {\n    return _vec.at(idx);", "::reference at(size_t idx) {\n    return _vec.at(idx % (_vec.size() + 1));")]),
    ("p24-bracket", "P24", [(UD, "::reference operator[](size_t idx) {\n    return _vec[idx];", "::reference operator[](size_t idx) {\n    if (idx >= _vec.size()) {\n      _vec.resize(idx + 1);\n    }\n    return _vec[idx];")]),
    ("p24-resize", "P24", [(UD, "    _vec.resize(count);", "    if (count < _vec.size()) {\n      return;\n    }\n    _vec.resize(count);")]),
    ("p24-create", "P24", [(UD, "    return _vec.emplace_back();", "    return _vec.emplace_back(_vec.empty() ? BasicType{} : _vec.back());")]),
    ("p24-push", "P24", [(UD, "    _vec.push_back(value);", "    if (_vec.empty() || _vec.back() != value) {\n      _vec.push_back(value);\n    }")]),
    ("p24-clear", "P24", [(UD, "    _vec.clear();", "    if (hasID()) {\n      return;\n    }\n    _vec.clear();")]),
    ("p24-rend", "P24", [(UD, "  const_reverse_iterator rend() const {\n    return _vec.rend();", "  const_reverse_iterator rend() const {\n    return _vec.rbegin() + _vec.size() / 2;")]),
    ("p24-buffers", "P24", [(UD, "    _vecPtr = &_vec; // Set", "    if (!_vecPtr)\n      _vecPtr = &_vec; // Set")]),
    ("p24-refs", "P24", [(UD, "    return {&_vecPtr, _vecPtr, &m_refCollections, &m_vecmem_info};", "    return {&_vec, _vecPtr, &m_refCollections, &m_vecmem_info};")]),
    ("p24-prepare", "P24", [(UD, "  void prepareAfterRead() override {\n  }", "  void prepareAfterRead() override {\n    _vec.clear();\n  }")]),
    ("p24-move", "P24", [(UD, "  UserDataCollection(UserDataCollection&&) = default;", "  UserDataCollection(UserDataCollection&& o) : _vec(std::move(o._vec)) {\n  }")]),
    ("p24-assign", "P24", [(UD, "  UserDataCollection& operator=(UserDataCollection&&) = default;", "  UserDataCollection& operator=(UserDataCollection&& o) {\n    if (_vec.empty()) {\n      _vec = std::move(o._vec);\n    }\n    m_collectionID = o.m_collectionID;\n    return *this;\n  }")]),
    ("p24-from", "P24", [(TH, "    std::ranges::copy(range, std::back_inserter(container));", "    for (const auto& v : range) {\n      if (v != T{}) {\n        container.push_back(v);\n      }\n    }")]),
    ("p24-make-copy", "P24", [(US, "auto vec = std::move(*buffers.dataAsVector<T>());", "auto vec = std::vector<T>(buffers.dataAsVector<T>()->size());")]),
    ("p24-dangling", "P24", [(US, "                                                delete static_cast<std::vector<T>*>(buffers.data);\n                                                buffers.data = nullptr;\n                                                return", "                                                delete static_cast<std::vector<T>*>(buffers.data);\n                                                return")]),
    ("p24-make-type", "P24", [(US, "new std::vector<T>(),", "new std::vector<std::conditional_t<sizeof(T) == 1, char, T>>(),")]),
    ("p24-name", "P24", [(UD, "PODIO_ADD_USER_TYPE(uint16_t)\n", "template <>\nconsteval const char* userDataTypeName<uint16_t>() {\n  return \"int16_t\";\n}\ntemplate <>\nconsteval const char* userDataCollTypeName<uint16_t>() {\n  return \"podio::UserDataCollection<uint16_t>\";\n}\n")]),
    ("p24-name2", "P24", [(UD, "    return dataTypeName;", "    return typeName;")]),
    ("p24-hasid", "P24", [(UD, "        getID() != static_cast<uint32_t>(podio::ObjectID::invalid);", "        getID() != static_cast<uint32_t>(podio::ObjectID::untracked);")]),
]
BENIGN += [
    ("ok-user-at", "P24", [(UD, "::reference at(size_t idx) {\n    return _vec.at(idx);", "::reference at(size_t idx) {\n    if (idx >= _vec.size()) {\n      throw std::out_of_range(\"index\");\n    }\n    return _vec[idx];")]),
    ("ok-user-create", "P24", [(UD, "    return _vec.emplace_back();", "    _vec.emplace_back();\n    return _vec.back();"), (UD, "    _vec.push_back(value);", "    create() = value;")]),
    ("ok-user-push", "P24", [(UD, "    _vec.push_back(value);", "    _vec.insert(_vec.end(), value);"), (UD, "    return _vec.empty();", "    return size() == 0;"), (UD, "    _vec.clear();", "    _vec.resize(0);")]),
    ("ok-user-iter", "P24", [(UD, "  const_iterator cbegin() const {\n    return _vec.cbegin();", "  const_iterator cbegin() const {\n    return begin();"), (UD, "  const_reverse_iterator crend() const {\n    return _vec.crend();", "  const_reverse_iterator crend() const {\n    return const_reverse_iterator(begin());")]),
    ("ok-user-buffers", "P24", [(UD, "    return {&_vecPtr, _vecPtr, &m_refCollections, &m_vecmem_info};", "    podio::CollectionWriteBuffers buffers{};\n    buffers.data = &_vecPtr;\n    buffers.vecPtr = &_vec;\n    buffers.references = &m_refCollections;\n    buffers.vectorMembers = &m_vecmem_info;\n    return buffers;")]),
    ("ok-user-hasid", "P24", [(UD, "    return getID() != static_cast<uint32_t>(podio::ObjectID::untracked) &&\n        getID() != static_cast<uint32_t>(podio::ObjectID::invalid);", "    const auto id = getID();\n    return !(id == static_cast<uint32_t>(podio::ObjectID::untracked) || id == static_cast<uint32_t>(podio::ObjectID::invalid));")]),
    ("ok-user-move", "P24", [(UD, "  UserDataCollection(UserDataCollection&&) = default;", "  UserDataCollection(UserDataCollection&& o) noexcept : _vec(std::move(o._vec)), m_collectionID(o.m_collectionID) {\n  }"), (UD, "  UserDataCollection& operator=(UserDataCollection&&) = default;", "  UserDataCollection& operator=(UserDataCollection&& o) {\n    _vec.swap(o._vec);\n    std::swap(m_collectionID, o.m_collectionID);\n    return *this;\n  }")]),
    ("ok-user-from", "P24", [(TH, "    std::ranges::copy(range, std::back_inserter(container));", "    for (const auto& v : range) {\n      container.push_back(v);\n    }")]),
    ("ok-user-make", "P24,P10", [(US, "                                                auto vec = std::move(*buffers.dataAsVector<T>());\n                                                delete static_cast<std::vector<T>*>(buffers.data);\n", "                                                std::unique_ptr<std::vector<T>> data(buffers.dataAsVector<T>());\n                                                std::vector<T> vec;\n                                                vec.swap(*data);\n")]),
    ("ok-user-make2", "P24,P10", [(US, "                                                auto vec = std::move(*buffers.dataAsVector<T>());\n                                                delete static_cast<std::vector<T>*>(buffers.data);\n                                                buffers.data = nullptr;\n                                                return std::make_unique<UserDataCollection<T>>(std::move(vec));", "                                                auto* const data = static_cast<std::vector<T>*>(buffers.data);\n                                                auto coll = std::make_unique<UserDataCollection<T>>(std::move(*data));\n                                                delete data;\n                                                buffers.data = nullptr;\n                                                return coll;")]),
    ("ok-user-named", "P24,P07", [(US, "        userDataCollTypeName<T>(), UserDataCollection<T>::schemaVersion, [](bool) {", "        std::string(UserDataCollection<T>::typeName), UserDataCollection<T>::schemaVersion, [](bool) {")]),
]
ITM = T + "macros/iterator.jinja2"
RR = "include/podio/RelationRange.h"
LCI = "include/podio/detail/LinkCollectionImpl.h"
MUTANTS += [
    ("p29-post-inc", "P29", [(LIT, "  LinkCollectionIteratorT operator++(int) {\n    auto copy = *this;\n    ++m_index;", "  LinkCollectionIteratorT operator++(int) {\n    ++m_index;\n    auto copy = *this;")]),
    ("p29-post-dec", "P29", [(ITM, "{{ iterator_type }} {{ iterator_type }}::operator--(int) {\n  auto copy = *this;\n  --m_index;\n  return copy;", "{{ iterator_type }} {{ iterator_type }}::operator--(int) {\n  auto copy = *this;\n  --m_index;\n  return *this;")]),
    ("p29-minus", "P29", [(LIT, "  LinkCollectionIteratorT operator-(difference_type n) const {\n    auto copy = *this;\n    copy -= n;", "  LinkCollectionIteratorT operator-(difference_type n) const {\n    auto copy = *this;\n    copy += n;")]),
    ("p29-bracket", "P29", [(LIT, "((*m_collection)[m_index + n])", "((*m_collection)[n])")]),
    ("p29-bracket2", "P29", [(ITM, "((*m_collection)[m_index + n])", "((*m_collection)[m_index + (n > 0 ? n : 0)])")]),
    ("p29-spaceship", "P29", [(LIT, "    return m_index <=> other.m_index;", "    return other.m_index <=> m_index;")]),
    ("p29-diff", "P29", [(LIT, "    return m_index - other.m_index;", "    return m_index > other.m_index ? m_index - other.m_index : other.m_index - m_index;")]),
    ("p29-arrow", "P29", [(LIT, "    m_object.m_obj = podio::utils::MaybeSharedPtr<LinkObjT>((*m_collection)[m_index]);", "    if (!m_object.m_obj) {\n      m_object.m_obj = podio::utils::MaybeSharedPtr<LinkObjT>((*m_collection)[m_index]);\n    }")]),
    ("p29-end", "P29", [(LCI, "    return iterator(m_storage.entries.size(), &m_storage.entries);", "    return iterator(m_storage.entries.size() - (m_isSubsetColl && !m_storage.entries.empty()), &m_storage.entries);")]),
    ("p29-crend", "P29", [(LCI, "  const_reverse_iterator crend() const {\n    return rend();", "  const_reverse_iterator crend() const {\n    return const_reverse_iterator(end());")]),
    ("p29-range-size", "P29", [(RR, "m_size(std::distance(m_begin, m_end))", "m_size(std::distance(m_begin, m_end) & 0xffff)")]),
    ("p29-range-at", "P29", [(RR, "    if (i < m_size) {", "    if (i <= m_size) {")]),
    ("p29-range-back", "P29", [(RR, "    return *(m_end - 1);", "    return *(m_begin + m_size);")]),
    ("p29-range-idx", "P29", [(RR, "    auto it = m_begin;\n    std::advance(it, i);\n    return *it;\n  }\n  /// First", "    auto it = m_begin;\n    std::advance(it, i % m_size + (i > m_size));\n    return *it;\n  }\n  /// First")]),
    ("p29-copy", "P29", [(LIT, "  LinkCollectionIteratorT& operator=(const LinkCollectionIteratorT&) = default;", "  LinkCollectionIteratorT& operator=(const LinkCollectionIteratorT& o) {\n    if (m_collection != o.m_collection) {\n      m_collection = o.m_collection;\n      m_index = o.m_index;\n    }\n    return *this;\n  }")]),
    ("p29-friend", "P29", [(LIT, "    return it + n;", "    return it - n;")]),
]
BENIGN += [
    ("ok-it-post", "P29", [(LIT, "  LinkCollectionIteratorT operator++(int) {\n    auto copy = *this;\n    ++m_index;\n    return copy;", "  LinkCollectionIteratorT operator++(int) {\n    return LinkCollectionIteratorT(m_index++, m_collection);"), (ITM, "{{ iterator_type }} {{ iterator_type }}::operator--(int) {\n  auto copy = *this;\n  --m_index;\n  return copy;", "{{ iterator_type }} {{ iterator_type }}::operator--(int) {\n  auto copy = *this;\n  --(*this);\n  return copy;")]),
    ("ok-it-plus", "P29", [(LIT, "  LinkCollectionIteratorT operator+(difference_type n) const {\n    auto copy = *this;\n    copy += n;\n    return copy;", "  LinkCollectionIteratorT operator+(difference_type n) const {\n    return {m_index + n, m_collection};"), (LIT, "    m_index -= n;\n    return *this;", "    return *this += -n;"), (LIT, "    return LinkType{podio::utils::MaybeSharedPtr<LinkObjT>((*m_collection)[m_index + n])};", "    return *(*this + n);")]),
    ("ok-it-cmp", "P29", [(LIT, "    return m_index == other.m_index;", "    return !(m_index != other.m_index);"), (LIT, "    return m_index - other.m_index;", "    return static_cast<difference_type>(m_index) - static_cast<difference_type>(other.m_index);")]),
    ("ok-it-arrow", "P29", [(LIT, "    m_object.m_obj = podio::utils::MaybeSharedPtr<LinkObjT>((*m_collection)[m_index]);\n    return &m_object;", "    m_object = **this;\n    return std::addressof(m_object);")]),
    ("ok-it-range", "P29", [(RR, "    auto it = m_begin;\n    std::advance(it, i);\n    return *it;\n  }\n  /// First", "    return *(m_begin + i);\n  }\n  /// First"), (RR, "    if (i < m_size) {\n      auto it = m_begin;\n      std::advance(it, i);\n      return *it;\n    }\n    throw std::out_of_range(\"index out of bounds for RelationRange\");", "    if (i >= m_size) {\n      throw std::out_of_range(\"index out of bounds for RelationRange\");\n    }\n    return *std::next(m_begin, i);"), (RR, "    return *(m_end - 1);", "    return *std::prev(m_end);"), (RR, "    return m_begin == m_end;", "    return m_size == 0;")]),
    ("ok-it-range2", "P29", [(RR, "    auto it = m_begin;\n    std::advance(it, i);\n    return *it;\n  }\n  /// First", "    return m_begin[i];\n  }\n  /// First"), (RR, "    return *m_begin;", "    return (*this)[0];"), (RR, "    return *(m_end - 1);", "    return (*this)[m_size - 1];"), (RR, "m_size(std::distance(m_begin, m_end))", "m_size(static_cast<size_t>(end - begin))")]),
    ("ok-it-rev", "P29", [(LCI, "    return const_reverse_iterator(end());\n  }\n  const_reverse_iterator crbegin", "    return std::make_reverse_iterator(cend());\n  }\n  const_reverse_iterator crbegin"), (LCI, "    return iterator(m_storage.entries.size(), &m_storage.entries);", "    return begin() + size();")]),
    ("ok-it-empty", "P29", [(RR, "    return m_begin == m_end;", "    return !(m_begin != m_end);"), (RR, "  constexpr size_t size() const {\n    return m_size;", "  constexpr size_t size() const {\n    return m_end - m_begin;")]),
]

BF = "src/CollectionBufferFactory.cc"
SE = "src/SchemaEvolution.cc"
CB = "include/podio/CollectionBuffers.h"
SC = "include/podio/utilities/StaticConcatenate.h"
LFW = "include/podio/detail/LinkFwd.h"
FILL14 = """      versionMap.resize(version);
      for (auto i = prevSize; i < version; ++i) {
        versionMap[i] = creationFunc;
      }
"""
MUTANTS += [
    ("p14-slot", "P14", [(BF, "version > 0 && versionMap.size() >= version", "versionMap.size() > version"), (BF, "return versionMap[version - 1](subsetColl);", "return versionMap[version](subsetColl);")]),
    ("p14-bound", "P14", [(BF, "versionMap.size() >= version", "versionMap.size() > version")]),
    ("p14-latest", "P14", [(BF, "    if (version > 0 && versionMap.size() >= version) {\n      return versionMap[version - 1](subsetColl);\n    }", "    if (version > 0 && !versionMap.empty()) {\n      return versionMap[std::min<size_t>(version, versionMap.size()) - 1](subsetColl);\n    }")]),
    ("p14-zero", "P14", [(BF, "version > 0 && ", "")]),
    ("p14-subset", "P14", [(BF, "return versionMap[version - 1](subsetColl);", "return versionMap[version - 1](false);")]),
    ("p14-fillall", "P14", [(BF, "auto i = prevSize; i < version", "auto i = size_t(0); i < version")]),
    ("p14-fillone", "P14", [(BF, FILL14, "      versionMap.resize(version);\n      versionMap[version - 1] = creationFunc;\n")]),
    ("p14-shrink", "P14", [(BF, "    if (prevSize < version) {", "    if (prevSize != version) {")]),
    ("p14-new-short", "P14", [(BF, "for (size_t i = 0; i < version; ++i)", "for (size_t i = 1; i < version; ++i)")]),
    ("p14-new-last", "P14", [(BF, "    for (size_t i = 0; i < version; ++i) {\n      versionMap.emplace_back(creationFunc);\n    }", "    versionMap.resize(version);\n    versionMap.back() = creationFunc;")]),
    ("p14-keep", "P14", [(BF, "    } else {\n      // In this case", "    } else if (prevSize > version) {\n      // In this case")]),
    ("p14-ev-slot", "P14", [(SE, "return typeEvolFuncs[fromVersion - 1](std::move(oldBuffers), fromVersion);", "return typeEvolFuncs[fromVersion](std::move(oldBuffers), fromVersion);")]),
    ("p14-ev-current", "P14", [(SE, "    if (fromVersion == currentVersion) {", "    if (fromVersion + 1 >= currentVersion) {")]),
    ("p14-ev-never", "P14", [(SE, "fromVersion > 0 && fromVersion < typeEvolFuncs.size()", "fromVersion > 1 && fromVersion < typeEvolFuncs.size()")]),
    ("p14-ev-bound", "P14", [(SE, "fromVersion > 0 && fromVersion < typeEvolFuncs.size()", "fromVersion > 0")]),
    ("p14-ev-arg", "P14", [(SE, "(std::move(oldBuffers), fromVersion);", "(std::move(oldBuffers), currentVersion);")]),
    ("p14-reg-prio", "P14", [(SE, "  if (priority == Priority::AutoGenerated && priorities[fromVersion - 1] == Priority::UserDefined) {\n    return; // user defined functions take precedence independent of the order of registration\n  }\n", "")]),
    ("p14-reg-prio2", "P14", [(SE, "priorities[fromVersion - 1] == Priority::UserDefined)", "priorities.back() == Priority::UserDefined)")]),
    ("p14-reg-prio3", "P14", [(SE, "  priorities[fromVersion - 1] = priority;", "  priorities[fromVersion - 1] = std::min(priority, Priority::AutoGenerated);")]),
    ("p14-reg-slot", "P14", [(SE, "  versionMap[fromVersion - 1] = evolutionFunc;", "  versionMap[currentVersion - 1] = evolutionFunc;")]),
    ("p14-reg-cur", "P14", [(SE, "MapIndex{currentVersion, MapIndex::NoEvolutionAvailable}", "MapIndex{fromVersion, MapIndex::NoEvolutionAvailable}")]),
    ("p14-reg-index", "P14", [(SE, "    typeIt->second.index = m_evolutionFuncs.size();\n    m_evolutionFuncs.emplace_back();", "    typeIt->second.index = m_versionMapIndices.size() - 1;\n    m_evolutionFuncs.emplace_back();")]),
    ("p14-reg-resize", "P14", [(SE, "  if (prevSize < currentVersion) {\n    versionMap.resize(currentVersion);", "  if (prevSize < currentVersion) {\n    versionMap.resize(fromVersion);")]),
    ("p14-reg-shrink", "P14", [(SE, "  if (prevSize < currentVersion) {\n", "  if (prevSize != currentVersion) {\n")]),
    ("p14-noop", "P14", [(SE, "  return buffers;\n", "  buffers.schemaVersion += 1;\n  return buffers;\n")]),
    ("p14-move", "P14", [(CB, "      schemaVersion(other.schemaVersion),\n      type(other.type),", "      schemaVersion(0),\n      type(other.type),")]),
    ("p14-moveasg", "P14", [(CB, "      schemaVersion = other.schemaVersion;\n", "")]),
    ("p14-userdata", "P14", [(US, "        podio::userDataCollTypeName<T>(), UserDataCollection<T>::schemaVersion, UserDataCollection<T>::schemaVersion,", "        podio::userDataCollTypeName<T>(), UserDataCollection<T>::schemaVersion, UserDataCollection<T>::schemaVersion + 1,")]),
    ("p14-link", "P14", [(LCI, "      podio::SchemaEvolution::mutInstance().registerEvolutionFunc(std::string(linkTypeName), schemaVersion,\n                                                                  schemaVersion, S", "      podio::SchemaEvolution::mutInstance().registerEvolutionFunc(std::string(linkTypeName), schemaVersion,\n                                                                  schemaVersion + 1, S")]),
    ("p14-frame", "P14", [(FR, "std::move(buffers.value()), version, collType);", "std::move(buffers.value()), version - 1, collType);")]),
    ("p34-macro", "P34", [(UD, 'return "podio::UserDataCollection<" #type ">";', 'return "podio::UserDataCollection< " #type ">";')]),
    ("p34-macro2", "P34", [(UD, "    return #type;  ", "    return \"u\" #type;")]),
    ("p34-ud-swap", "P34", [(UD, "std::string_view getTypeName() const override {\n    return typeName;", "std::string_view getTypeName() const override {\n    return valueTypeName;")]),
    ("p34-ud-buf", "P34", [(US, "                                              podio::userDataCollTypeName<T>(),\n", "                                              podio::userDataTypeName<T>(),\n")]),
    ("p34-ud-ver", "P34", [(US, "                                              podio::UserDataCollection<T>::schemaVersion,\n", "                                              {},\n")]),
    ("p34-ud-reg", "P34", [(US, "        userDataCollTypeName<T>(), UserDataCollection<T>::schemaVersion, [](bool) {", "        userDataTypeName<T>(), UserDataCollection<T>::schemaVersion, [](bool) {")]),
    ("p34-ud-regver", "P34", [(US, "        userDataCollTypeName<T>(), UserDataCollection<T>::schemaVersion, [](bool) {", "        userDataCollTypeName<T>(), UserDataCollection<T>::schemaVersion + 1, [](bool) {")]),
    ("p34-link-name", "P34", [(LCI, "podio::detail::link_name_infix, ToT::typeName,", "podio::detail::link_name_infix, FromT::typeName,")]),
    ("p34-link-value", "P34", [(LCI, "std::string_view getValueTypeName() const override {\n    return valueTypeName;", "std::string_view getValueTypeName() const override {\n    return typeName;")]),
    ("p34-link-data", "P34", [(LCI, "std::string_view getDataTypeName() const override {\n    return dataTypeName;", "std::string_view getDataTypeName() const override {\n    return valueTypeName;")]),
    ("p34-link-buf", "P34", [(LCI, "readBuffers.type = podio::LinkCollection<FromT, ToT>::typeName;", "readBuffers.type = podio::LinkCollection<FromT, ToT>::valueTypeName;")]),
    ("p34-link-swap", "P34", [(LCI, "std::string(linkTypeName), schemaVersion, createLinkBuffers<FromT, ToT>);", "std::string(linkTypeName), schemaVersion, createLinkBuffers<ToT, FromT>);")]),
    ("p34-link-make", "P34", [(LCI, "      LinkCollectionData<FromT, ToT> data(std::move(buffers), isSubsetColl);\n      return std::make_unique<LinkCollection<FromT, ToT>>", "      LinkCollectionData<ToT, FromT> data(std::move(buffers), isSubsetColl);\n      return std::make_unique<LinkCollection<ToT, FromT>>")]),
    ("p34-link-ver", "P34", [(LCI, "    readBuffers.schemaVersion = podio::LinkCollection<FromT, ToT>::schemaVersion;\n", "")]),
    ("p34-infix", "P34", [(LFW, 'link_name_infix = ",";', 'link_name_infix = ", ";')]),
    ("p34-concat", "P34", [(SC, "std::string_view(array.data(), array.size() - 1); // skip '\\0'", "std::string_view(array.data(), array.size());")]),
    ("p34-getver", "P34", [(LCI, "    return schemaVersion;", "    return 0;")]),
    ("p34-ud-getver", "P34", [(UD, "    return schemaVersion;", "    return 0;")]),
]
BENIGN += [
    ("ok-bf-at", "P14", [(BF, "    if (version > 0 && versionMap.size() >= version) {\n      return versionMap[version - 1](subsetColl);\n    }", "    if (version == 0 || version > versionMap.size()) {\n      return std::nullopt;\n    }\n    return std::optional<podio::CollectionReadBuffers>{versionMap.at(version - 1)(subsetColl)};")]),
    ("ok-bf-bound", "P14", [(BF, "version > 0 && versionMap.size() >= version", "version - 1 < versionMap.size()")]),
    ("ok-bf-find", "P14", [(BF, "  if (const auto typeIt = m_funcMap.find(collType); typeIt != m_funcMap.end()) {\n    const auto& [_, versionMap] = *typeIt;\n", "  const auto typeIt = m_funcMap.find(collType);\n  if (typeIt == m_funcMap.end()) {\n    return std::nullopt;\n  }\n  {\n    const auto& versionMap = typeIt->second;\n    const auto index = version - 1;\n"), (BF, "versionMap[version - 1](subsetColl)", "versionMap[index](subsetColl)")]),
    ("ok-bf-resize", "P14", [(BF, FILL14, "      versionMap.resize(version, creationFunc);\n"), (BF, "    VersionMapT versionMap;\n    versionMap.reserve(version);\n    for (size_t i = 0; i < version; ++i) {\n      versionMap.emplace_back(creationFunc);\n    }\n\n    m_funcMap.emplace(collType, std::move(versionMap));", "    m_funcMap.emplace(collType, VersionMapT(version, creationFunc));")]),
    ("ok-bf-fill", "P14", [(BF, "      for (auto i = prevSize; i < version; ++i) {\n        versionMap[i] = creationFunc;\n      }", "      std::fill(versionMap.begin() + prevSize, versionMap.end(), creationFunc);"), (BF, "#include \"podio/CollectionBuffers.h\"\n", "#include \"podio/CollectionBuffers.h\"\n#include <algorithm>\n")]),
    ("ok-bf-push", "P14", [(BF, FILL14, "      while (versionMap.size() < version) {\n        versionMap.push_back(creationFunc);\n      }\n")]),
    ("ok-se-early", "P14", [(SE, "  if (const auto typeIt = m_versionMapIndices.find(collType); typeIt != m_versionMapIndices.end()) {\n    const auto [currentVersion, mapIndex] = typeIt->second;\n", "  const auto typeIt = m_versionMapIndices.find(collType);\n  if (typeIt != m_versionMapIndices.end()) {\n    const auto currentVersion = typeIt->second.currentVersion;\n    const auto mapIndex = typeIt->second.index;\n"), (SE, "      return typeEvolFuncs[fromVersion - 1](std::move(oldBuffers), fromVersion);", "      const auto& func = typeEvolFuncs[fromVersion - 1];\n      return func(std::move(oldBuffers), fromVersion);")]),
    ("ok-se-emplace", "P14", [(SE, "    std::tie(typeIt, std::ignore) =\n        m_versionMapIndices.emplace(", "    typeIt =\n        m_versionMapIndices.emplace("), (SE, "MapIndex{currentVersion, MapIndex::NoEvolutionAvailable});", "MapIndex{currentVersion, MapIndex::NoEvolutionAvailable}).first;")]),
    ("ok-se-try", "P14", [(SE, "  auto typeIt = m_versionMapIndices.find(collType);\n  if (typeIt == m_versionMapIndices.end()) {\n    // Create an entry for this type\n    std::tie(typeIt, std::ignore) =\n        m_versionMapIndices.emplace(collType, MapIndex{currentVersion, MapIndex::NoEvolutionAvailable});\n  }\n", "  auto typeIt = m_versionMapIndices.try_emplace(collType, MapIndex{currentVersion, MapIndex::NoEvolutionAvailable}).first;\n")]),
    ("ok-se-index", "P14", [(SE, "  const auto& [_, mapIndex] = typeIt->second;\n", "  const auto mapIndex = typeIt->second.index;\n  const auto slot = fromVersion - 1;\n"), (SE, "  versionMap[fromVersion - 1] = evolutionFunc;\n  priorities[fromVersion - 1] = priority;", "  priorities[slot] = priority;\n  versionMap[slot] = evolutionFunc;")]),
    ("ok-se-prio", "P14", [(SE, "  if (priority == Priority::AutoGenerated && priorities[fromVersion - 1] == Priority::UserDefined) {\n    return; // user defined functions take precedence independent of the order of registration\n  }\n  versionMap[fromVersion - 1] = evolutionFunc;\n  priorities[fromVersion - 1] = priority;\n", "  if (priority == Priority::UserDefined || priorities[fromVersion - 1] == Priority::AutoGenerated) {\n    versionMap[fromVersion - 1] = evolutionFunc;\n    priorities[fromVersion - 1] = priority;\n  }\n")]),
    ("ok-cb-exchange", "P14,P34", [(CB, "      data(other.data),\n      references(other.references),\n      vectorMembers(other.vectorMembers),\n      schemaVersion(other.schemaVersion),", "      data(std::exchange(other.data, nullptr)),\n      references(std::exchange(other.references, nullptr)),\n      vectorMembers(std::exchange(other.vectorMembers, nullptr)),\n      schemaVersion(std::exchange(other.schemaVersion, 0)),"), (CB, "    other.data = nullptr;\n    other.references = nullptr;\n    other.vectorMembers = nullptr;\n    other.schemaVersion = 0;\n    other.type = {};\n  }\n\n", "    other.type = {};\n  }\n\n")]),
    ("ok-ud-names", "P34", [(UD, "std::string_view getTypeName() const override {\n    return typeName;", "std::string_view getTypeName() const override {\n    return userDataCollTypeName<BasicType>();"), (US, "                                              podio::userDataCollTypeName<T>(),\n", "                                              UserDataCollection<T>::typeName,\n")]),
    ("ok-ud-loop", "P34,P14", [(US, "std::apply([](auto... x) { std::make_tuple(registerUserDataCollection(x)...); }, SupportedUserDataTypes{});", "std::apply([](auto... x) { (registerUserDataCollection(x), ...); }, SupportedUserDataTypes{});")]),
    ("ok-link-reg", "P34,P14", [(LCI, "      auto& factory = CollectionBufferFactory::mutInstance();\n      factory.registerCreationFunc(std::string(linkTypeName), schemaVersion, createLinkBuffers<FromT, ToT>);", "      const auto name = std::string(linkTypeName);\n      CollectionBufferFactory::mutInstance().registerCreationFunc(\n          name, schemaVersion, [](bool isSubset) { return createLinkBuffers<FromT, ToT>(isSubset); });")]),
]

DR = "src/DatamodelRegistry.cc"
DIO = "src/DatamodelRegistryIOHelpers.cc"
DIOH = "include/podio/utilities/DatamodelRegistryIOHelpers.h"
RC = "include/podio/utilities/ReaderCommon.h"
GU = "python/podio_gen/generator_utils.py"
CG = "python/podio_gen/cpp_generator.py"
FIND17 = "  const auto it = std::ranges::find(m_definitions, name, &decltype(m_definitions)::value_type::first);\n"
MUTANTS += [
    ("p17-twice-moved", "P17", [(DR, "registerDatamodel(name, definition, relationNames);", "registerDatamodel(std::move(name), definition, relationNames);")]),
    ("p17-moved-early", "P17", [(DR, "  auto index = registerDatamodel(name, definition, relationNames);\n  m_datamodelVersions.emplace(std::move(name), version);\n  return index;", "  m_datamodelVersions.emplace(std::move(name), version);\n  return registerDatamodel(name, definition, relationNames);")]),
    ("p17-index-late", "P17", [(DR, "    int index = m_definitions.size();\n    m_definitions.emplace_back(std::move(name), definition);\n", "    m_definitions.emplace_back(std::move(name), definition);\n    int index = m_definitions.size();\n")]),
    ("p17-suffix", "P17", [(DR, "typeName = typeName.substr(0, typeName.size() - 10);", "typeName = typeName.substr(0, typeName.size() - 11);")]),
    ("p17-infix", "P17", [(DR, "  if (typeName.size() > 10 && typeName.substr(typeName.size() - 10) == \"Collection\") {\n    typeName = typeName.substr(0, typeName.size() - 10);", "  if (const auto pos = typeName.find(\"Coll\"); pos != std::string_view::npos) {\n    typeName = typeName.substr(0, pos);")]),
    ("p17-index-bound", "P17", [(DR, "  if (index >= m_definitions.size()) {\n    std::cerr", "  if (index > m_definitions.size()) {\n    std::cerr")]),
    ("p17-name-bound", "P17", [(DR, "  if (index >= m_definitions.size()) {\n    std::cout", "  if (index + 1 >= m_definitions.size()) {\n    std::cout")]),
    ("p17-rel-swap", "P17", [(DR, "RelationNames{relations, vectorMembers}", "RelationNames{vectorMembers, relations}")]),
    ("p17-rel-skip", "P17", [(DR, "      m_relations.emplace(typeName", "      if (relations.empty()) {\n        continue;\n      }\n      m_relations.emplace(typeName")]),
    ("p17-rel-first", "P17", [(DR, "RelationNames{relations, vectorMembers});\n", "RelationNames{relations, vectorMembers});\n      break;\n")]),
    ("p17-version-replace", "P17", [(DR, "m_datamodelVersions.emplace(std::move(name), version);", "m_datamodelVersions.insert_or_assign(std::move(name), version);")]),
    ("p17-replace-def", "P17", [(DR, "  // TODO: Output?\n", "  m_definitions[std::ranges::distance(m_definitions.cbegin(), it)].second = definition;\n")]),
    ("p17-find-def", "P17", [(DR, FIND17 + "\n  if (it == m_definitions.cend()) {\n    int", FIND17.replace("name, &", "definition, &").replace("::first", "::second") + "\n  if (it == m_definitions.cend()) {\n    int")]),
    ("p17-link-order", "P17", [(DR, "{fromName, toName}", "{toName, fromName}")]),
    ("p17-ud-prefix", "P17", [(DR, 'typeName.substr(0, 11) == "podio::Link"', 'typeName.substr(0, 7) == "podio::"'), (DR, '  if (typeName.substr(0, 25) == "podio::UserDataCollection") {\n    return {emptyVec, emptyVec};\n  }\n', '')]),
    ("p17-coll-zero", "P17", [(DIO, "edmIndex != DatamodelRegistry::NoDefinitionNecessary", "edmIndex && edmIndex != DatamodelRegistry::NoDefinitionNecessary")]),
    ("p17-coll-all", "P17", [(DIO, "    if (edmIndex != DatamodelRegistry::NoDefinitionNecessary) {\n      m_edmDefRegistryIdcs.insert(edmIndex);\n    }", "    m_edmDefRegistryIdcs.insert(edmIndex);")]),
    ("p17-write-count", "P17", [(DIO, "  for (const auto& index : m_edmDefRegistryIdcs) {\n", "  for (size_t index = 0; index < m_edmDefRegistryIdcs.size(); ++index) {\n")]),
    ("p17-holder-prefix", "P17", [(DIO, "return std::get<0>(entry) == name; });\n\n  if (it != m_avail", "return std::get<0>(entry).starts_with(name); });\n\n  if (it != m_avail")]),
    ("p17-holder-first", "P17", [(DIO, "    return std::get<1>(*it);\n  }\n\n  return \"{}\";", "    return std::get<1>(m_availEDMDefs.front());\n  }\n\n  return \"{}\";")]),
    ("p17-holder-none", "P17", [(DIO, "return \"{}\";", "return \"\";")]),
    ("p17-holder-avail", "P17", [(DIO, "[](const auto& elem) { return std::get<0>(elem); }", "[](const auto& elem) { return std::get<1>(elem); }")]),
    ("p17-holder-ver", "P17", [(DIO, "  const auto it = std::find_if(m_edmVersions.begin(), m_edmVersions.end(),", "  const auto it = std::find_if(m_edmVersions.begin() + 1, m_edmVersions.end(),")]),
    ("p17-json-unit", "P17", [(GU, 'unit = f"[{self.unit}]" if self.unit else ""\n        return f"{self.full_type} {self.name}{def_val}', 'unit = f"[{self.unit}]" if self.unit and not def_val else ""\n        return f"{self.full_type} {self.name}{def_val}')]),
    ("p17-json-dict", "P17", [(GU, "        return self.__dict__", '        return {k: v for k, v in self.__dict__.items() if k != "links"}')]),
    ("p17-version-gen", "P17", [(CG, '"datamodel_version": self.datamodel_version,\n        }\n\n        def', '"datamodel_version": self.datamodel_version and [self.datamodel_version[0], self.datamodel_version[2], self.datamodel_version[1]],\n        }\n\n        def')]),
    ("p17-get-unlocked", "P17", [(DR, "  if (const auto it = m_datamodelVersions.find(name); it != m_datamodelVersions.end()) {\n    return it->second;\n  }\n  return std::nullopt;", "  if (m_datamodelVersions.contains(name)) {\n    return m_datamodelVersions.begin()->second;\n  }\n  return std::nullopt;")]),
]
BENIGN += [
    ("ok-dr-loop", "P17", [(DR, FIND17 + "\n  if (it == m_definitions.cend()) {\n    int index = m_definitions.size();\n", "  for (size_t i = 0; i < m_definitions.size(); ++i) {\n    if (m_definitions[i].first == name) {\n      return i;\n    }\n  }\n  {\n    const auto index = m_definitions.size();\n"),
                           (DR, "  // TODO: Output?\n  return std::ranges::distance(m_definitions.cbegin(), it);\n", "")]),
    ("ok-dr-findif", "P17", [(DR, FIND17 + "\n  if (it == m_definitions.cend()) {\n    int", "  const auto it = std::find_if(m_definitions.cbegin(), m_definitions.cend(), [&name](const auto& d) { return d.first == name; });\n\n  if (it == m_definitions.cend()) {\n    int")]),
    ("ok-dr-skip", "P17", [(DR, "      m_relations.emplace(typeName", "      if (relations.empty() && vectorMembers.empty()) {\n        continue;\n      }\n      m_relations.emplace(typeName")]),
    ("ok-dr-try", "P17", [(DR, "m_relations.emplace(typeName, RelationNames{relations, vectorMembers});", "m_relations.try_emplace(typeName, RelationNames{relations, vectorMembers});"), (DR, "m_datamodelVersions.emplace(std::move(name)", "m_datamodelVersions.try_emplace(std::move(name)")]),
    ("ok-dr-get", "P17", [(DR, "    for (const auto& [typeName, relations, vectorMembers] : relationNames) {\n      m_relations.emplace(typeName, RelationNames{relations, vectorMembers});", "    for (const auto& entry : relationNames) {\n      m_relations.emplace(std::get<0>(entry), RelationNames{std::get<1>(entry), std::get<2>(entry)});")]),
    ("ok-dr-starts", "P17", [(DR, 'typeName.substr(0, 25) == "podio::UserDataCollection"', 'typeName.starts_with("podio::UserDataCollection")'), (DR, 'typeName.substr(0, 11) == "podio::Link"', 'typeName.rfind("podio::Link", 0) == 0')]),
    ("ok-dr-at", "P17", [(DR, "  return m_definitions[index].second;", "  return m_definitions.at(index).second;"), (DR, "index >= m_definitions.size()) {\n    std::cerr", "!(index < m_definitions.size())) {\n    std::cerr")]),
    ("ok-dr-count", "P17", [(DR, "  if (const auto it = m_datamodelVersions.find(name); it != m_datamodelVersions.end()) {\n    return it->second;\n  }\n  return std::nullopt;", "  if (!m_datamodelVersions.contains(name)) {\n    return std::nullopt;\n  }\n  return m_datamodelVersions.at(name);")]),
    ("ok-dio-less", "P17", [(DIO, "  if (edmIndex == DatamodelRegistry::NoDefinitionAvailable) {\n    std::cerr", "  if (edmIndex < DatamodelRegistry::NoDefinitionAvailable) {\n    m_edmDefRegistryIdcs.emplace(edmIndex);\n    return;\n  }\n  if (edmIndex == DatamodelRegistry::NoDefinitionAvailable) {\n    std::cerr"), (DIO, "  } else {\n    if (edmIndex != DatamodelRegistry::NoDefinitionNecessary) {\n      m_edmDefRegistryIdcs.insert(edmIndex);\n    }\n  }", "  }")]),
    ("ok-dio-loop", "P17", [(DIO, "  const auto it =\n      std::ranges::find_if(m_availEDMDefs, [&name](const auto& entry) { return std::get<0>(entry) == name; });\n\n  if (it != m_availEDMDefs.cend()) {\n    return std::get<1>(*it);\n  }\n", "  for (const auto& [edm, def] : m_availEDMDefs) {\n    if (edm == name) {\n      return def;\n    }\n  }\n")]),
    ("ok-dio-avail", "P17", [(DIO, "  std::transform(m_availEDMDefs.cbegin(), m_availEDMDefs.cend(), std::back_inserter(defs),\n                 [](const auto& elem) { return std::get<0>(elem); });\n", "  for (const auto& elem : m_availEDMDefs) {\n    defs.push_back(std::get<0>(elem));\n  }\n")]),
    ("ok-dio-write", "P17", [(DIO, "  for (const auto& index : m_edmDefRegistryIdcs) {\n    const auto& edmRegistry = podio::DatamodelRegistry::instance();\n", "  const auto& edmRegistry = podio::DatamodelRegistry::instance();\n  for (auto it = m_edmDefRegistryIdcs.begin(); it != m_edmDefRegistryIdcs.end(); ++it) {\n    const auto index = *it;\n")]),
]

# ---------------------------------------------------------------- P02
LK = "include/podio/detail/Link.h"
MUTANTS += [
    ("p02-link-eq-content", "P02", [(LK, "  constexpr bool operator==(const LinkT& other) const {\n    return m_obj == other.m_obj;", "  constexpr bool operator==(const LinkT& other) const {\n    return m_obj == other.m_obj || (m_obj && other.m_obj && m_obj->id == other.m_obj->id && m_obj->id.index >= 0);")]),
    ("p02-link-ne", "P02", [(LK, "    requires sameTypes<FromU, ToU>\n  constexpr bool operator!=(const LinkT<FromU, ToU, !Mutable>& other) const {\n    return !(*this == other);", "    requires sameTypes<FromU, ToU>\n  constexpr bool operator!=(const LinkT<FromU, ToU, !Mutable>& other) const {\n    return *this == other;")]),
    ("p02-link-less-le", "P02", [(LK, "    return m_obj < other.m_obj;", "    return !(other.m_obj < m_obj);")]),
    ("p02-link-less-weight", "P02", [(LK, "    return m_obj < other.m_obj;", "    return m_obj->data.weight < other.m_obj->data.weight;")]),
    ("p02-link-less-id", "P02", [(LK, "    return m_obj < other.m_obj;", "    return getObjectID().index < other.getObjectID().index;")]),
    ("p02-link-hash-id", "P02", [(LK, "{}(obj.m_obj.get());\n", "{}(obj.m_obj.get()) ^ std::hash<podio::ObjectID>{}(obj.getObjectID());\n")]),
    ("p02-link-hash-mut", "P02", [(LK, "{}(obj.m_obj.get());\n", "{}(obj.m_obj.get()) + Mutable;\n")]),
    ("p02-link-swap-values", "P02", [(LK, "    swap(a.m_obj, b.m_obj);", "    swap(a.m_obj->data, b.m_obj->data);")]),
    ("p02-link-convert-clone", "P02", [(LK, "    return Link<FromU, ToU>(m_obj);", "    return Link<FromU, ToU>(podio::utils::MaybeSharedPtr<LinkObjT>(new LinkObjT(m_obj->id, m_obj->data), podio::utils::MarkOwned));")]),
    ("p02-msp-swap-ctrl", "P02", [(MS, "  swap(a.m_ctrlBlock, b.m_ctrlBlock);\n", "")]),
    ("p02-msp-ne", "P02", [(MS, "    return lhs.m_ptr op rhs.m_ptr;  ", "    return lhs.m_ptr && rhs.m_ptr && lhs.m_ptr op rhs.m_ptr;  ")]),
    ("p02-msp-bool", "P02", [(MS, "operator bool() const {\n    return m_ptr;", "operator bool() const {\n    return m_ctrlBlock;")]),
    ("p02-orderkey", "P02", [("include/podio/detail/OrderKey.h", "std::less<const void*>{}(lhs.m_orderKey, rhs.m_orderKey)", "!std::less<const void*>{}(rhs.m_orderKey, lhs.m_orderKey)")]),
    ("p02-orderkey-ctor", "P02", [("include/podio/detail/OrderKey.h", "m_orderKey(orderKey)", "m_orderKey(nullptr)"), ("include/podio/detail/OrderKey.h", "const void* orderKey)", "[[maybe_unused]] const void* orderKey)")]),
    ("p02-oid-eq", "P02", [("include/podio/ObjectID.h", "  constexpr bool operator==(const ObjectID&) const noexcept = default;", "  constexpr bool operator==(const ObjectID& o) const noexcept { return index == o.index && (index < 0 || collectionID == o.collectionID); }")]),
    ("p02-oid-hash", "P02", [("include/podio/ObjectID.h", "return hash_collectionID ^ hash_index;", "return hash_index;")]),
    ("p02-obj-eq-inv", "P02", [(T + "macros/implementations.jinja2", "  return m_obj == other.m_obj;", "  return m_obj == other.m_obj && m_obj;")]),
    ("p02-obj-ne", "P02", [(T + "macros/declarations.jinja2", "  bool operator!=(const {{ inverse_type }}& other) const { return !(*this == other); }", "  bool operator!=(const {{ inverse_type }}& other) const { return m_obj && !(*this == other); }")]),
    ("p02-obj-assign", "P02", [(T + "macros/implementations.jinja2", "  swap(*this, other);\n", "  if (!m_obj) {\n    swap(*this, other);\n  }\n")]),
    ("p02-if-equal-type", "P02", [(T + "Interface.h.jinja2", "      return false;", "      return getObjectID() == rhs->getObjectID();")]),
    ("p02-if-equal-cast", "P02", [(T + "Interface.h.jinja2", "      if (typeInfo() == rhs->typeInfo()) {\n        return", "      {\n        return")]),
    ("p02-if-hash", "P02", [(T + "Interface.h.jinja2", "std::hash<ValueT>{}(m_value)", "std::hash<podio::ObjectID>{}(m_value.getObjectID())")]),
    ("p02-if-less", "P02", [(T + "Interface.h.jinja2", "lhs.m_self->objOrderKey() < rhs.m_self->objOrderKey()", "lhs.m_self.get() < rhs.m_self.get()")]),
    ("p02-if-assign", "P02", [(T + "Interface.h.jinja2", "    std::swap(tmp.m_self, this->m_self);\n", "    if (!this->isAvailable()) {\n      std::swap(tmp.m_self, this->m_self);\n    }\n")]),
]
BENIGN += [
    ("ok-p02-link-eq", "P02,P29", [(LK, "  constexpr bool operator==(const LinkT& other) const {\n    return m_obj == other.m_obj;", "  constexpr bool operator==(const LinkT& other) const {\n    return m_obj.get() == other.m_obj.get();")]),
    ("ok-p02-link-ne", "P02", [(LK, "  constexpr bool operator!=(const LinkT& other) const {\n    return !(*this == other);", "  constexpr bool operator!=(const LinkT& other) const {\n    return m_obj != other.m_obj;")]),
    ("ok-p02-link-less", "P02", [(LK, "    return m_obj < other.m_obj;", "    return std::less<const LinkObjT*>{}(m_obj.get(), other.m_obj.get());")]),
    ("ok-p02-link-greater", "P02", [(LK, "    return m_obj < other.m_obj;", "    return std::greater<>{}(m_obj.get(), other.m_obj.get());")]),
    ("ok-p02-link-hash", "P02", [(LK, "    return std::hash<typename podio::LinkT<FromT, ToT, Mutable>::LinkObjT*>{}(obj.m_obj.get());", "    const auto* object = obj.m_obj.get();\n    return std::hash<const void*>{}(object);")]),
    ("ok-p02-msp-swap", "P02,P08", [(MS, "  using std::swap;\n  swap(a.m_ptr, b.m_ptr);\n  swap(a.m_ctrlBlock, b.m_ctrlBlock);", "  std::swap(a.m_ctrlBlock, b.m_ctrlBlock);\n  auto* tmp = a.m_ptr;\n  a.m_ptr = b.m_ptr;\n  b.m_ptr = tmp;")]),
    ("ok-p02-msp-assign", "P02,P08", [(MS, "    swap(*this, other);\n    return *this;", "    std::swap(m_ptr, other.m_ptr);\n    std::swap(m_ctrlBlock, other.m_ctrlBlock);\n    return *this;")]),
    ("ok-p02-msp-movector", "P02,P08", [(MS, "    other.m_ptr = nullptr;\n    other.m_ctrlBlock = nullptr;\n", "    other.m_ptr = std::exchange(other.m_ptr, nullptr) ? nullptr : nullptr;\n    other.m_ctrlBlock = nullptr;\n")]),
    ("ok-p02-oid-eq", "P02,P06", [("include/podio/ObjectID.h", "  constexpr bool operator==(const ObjectID&) const noexcept = default;", "  constexpr bool operator==(const ObjectID& o) const noexcept {\n    if (index != o.index) {\n      return false;\n    }\n    return collectionID == o.collectionID;\n  }")]),
    ("ok-p02-oid-hash", "P02", [("include/podio/ObjectID.h", "return hash_collectionID ^ hash_index;", "return hash_collectionID * 31 + hash_index;")]),
    ("ok-p02-orderkey", "P02", [("include/podio/detail/OrderKey.h", "std::less<const void*>{}(lhs.m_orderKey, rhs.m_orderKey)", "std::greater<const void*>{}(rhs.m_orderKey, lhs.m_orderKey)")]),
    ("ok-p02-if-equal", "P02", [(T + "Interface.h.jinja2", "      if (typeInfo() == rhs->typeInfo()) {\n        return m_value == static_cast<const Model<ValueT>*>(rhs)->m_value;\n      }\n      return false;", "      if (typeid(ValueT) != rhs->typeInfo()) {\n        return false;\n      }\n      const auto* other = static_cast<const Model<ValueT>*>(rhs);\n      return m_value == other->m_value;")]),
    ("ok-p02-if-equal2", "P02", [(T + "Interface.h.jinja2", "      if (typeInfo() == rhs->typeInfo()) {\n        return m_value == static_cast<const Model<ValueT>*>(rhs)->m_value;\n      }\n      return false;", "      const auto* other = dynamic_cast<const Model<ValueT>*>(rhs);\n      return other != nullptr && m_value == other->m_value;")]),
    ("ok-p02-if-assign", "P02", [(T + "Interface.h.jinja2", "    {{ class.bare_type }} tmp{other};\n    std::swap(tmp.m_self, this->m_self);\n", "    m_self = other.m_self->clone();\n")]),
    ("ok-p02-obj-assign", "P02", [(T + "macros/implementations.jinja2", "  swap(*this, other);\n", "  m_obj = std::move(other.m_obj);\n")]),
]

# ---------------------------------------------------------------- P12
MUTANTS += [
    ("p12-range-size16", "P12,P29", [(RR, "m_size(std::distance(m_begin, m_end))", "m_size(static_cast<uint16_t>(std::distance(m_begin, m_end)))")]),
    ("p12-range-at", "P12", [(RR, "    if (i < m_size) {", "    if (m_begin + i <= m_end) {")]),
    ("p12-begin", "P12", [(T + "macros/implementations.jinja2", "  std::advance(ret_value, m_obj->data.{{ relation.name }}_begin);\n", "")]),
    ("p12-end", "P12", [(T + "macros/implementations.jinja2", "  std::advance(ret_value, m_obj->data.{{ relation.name }}_end);\n", "  std::advance(ret_value, m_obj->m_{{ relation.name }}->size());\n")]),
    ("p12-size", "P12", [(T + "macros/implementations.jinja2", "  return m_obj->data.{{ relation.name }}_end - m_obj->data.{{ relation.name }}_begin;", "  return m_obj->m_{{ relation.name }}->size();")]),
    ("p12-index", "P12", [(T + "macros/implementations.jinja2", "  if ({{ relation.name }}_size() > index) {", "  if ({{ relation.name }}_size() >= index) {")]),
    ("p12-index2", "P12", [(T + "macros/implementations.jinja2", "->at(m_obj->data.{{ relation.name }}_begin + index)", "->at(index)")]),
    ("p12-index3", "P12", [(T + "macros/implementations.jinja2", "  if ({{ relation.name }}_size() > index) {", "  if (m_obj->m_{{ relation.name }}->size() > index) {")]),
    ("p12-range-end", "P12", [(T + "macros/implementations.jinja2", "  std::advance(end, m_obj->data.{{ relation.name }}_end);\n", "  std::advance(end, m_obj->m_{{ relation.name }}->size());\n")]),
    ("p12-add-size", "P12", [(T + "macros/implementations.jinja2", "  m_obj->data.{{ relation.name }}_end++;", "  m_obj->data.{{ relation.name }}_end = m_obj->m_{{ relation.name }}->size() - m_obj->data.{{ relation.name }}_begin;")]),
    ("p12-add-twice", "P12", [(T + "macros/implementations.jinja2", "  m_obj->data.{{ relation.name }}_end++;", "  m_obj->data.{{ relation.name }}_end++;\n  if (m_obj->id.index >= 0) {\n    m_obj->data.{{ relation.name }}_end++;\n  }")]),
]
BENIGN += [
    ("ok-p12-index", "P12", [(T + "macros/implementations.jinja2", "  if ({{ relation.name }}_size() > index) {\n    return m_obj->m_{{ relation.name }}->at(m_obj->data.{{ relation.name }}_begin + index);\n  }\n  throw std::out_of_range(\"index out of bounds for existing references\");", "  if (index >= {{ relation.name }}_size()) {\n    throw std::out_of_range(\"index out of bounds for existing references\");\n  }\n  return *({{ relation.name }}_begin() + index);")]),
    ("ok-p12-index2", "P12", [(T + "macros/implementations.jinja2", "  if ({{ relation.name }}_size() > index) {", "  const auto first = m_obj->data.{{ relation.name }}_begin;\n  if (first + index < m_obj->data.{{ relation.name }}_end) {")]),
    ("ok-p12-range", "P12", [(T + "macros/implementations.jinja2", "  auto begin = m_obj->m_{{ relation.name }}->begin();\n  std::advance(begin, m_obj->data.{{ relation.name }}_begin);\n  auto end = m_obj->m_{{ relation.name }}->begin();\n  std::advance(end, m_obj->data.{{ relation.name }}_end);\n  return {begin, end};", "  return {{ '{' }}{{ relation.name }}_begin(), {{ relation.name }}_end()};")]),
    ("ok-p12-begin", "P12", [(T + "macros/implementations.jinja2", "  auto ret_value = m_obj->m_{{ relation.name }}->begin();\n  std::advance(ret_value, m_obj->data.{{ relation.name }}_begin);\n  return ret_value;", "  return m_obj->m_{{ relation.name }}->cbegin() + m_obj->data.{{ relation.name }}_begin;")]),
    ("ok-p12-add", "P12,P08", [(T + "macros/implementations.jinja2", "  m_obj->m_{{ relation.name }}->push_back(component);\n  m_obj->data.{{ relation.name }}_end++;", "  auto& target = *m_obj->m_{{ relation.name }};\n  target.emplace_back(component);\n  m_obj->data.{{ relation.name }}_end += 1;")]),
    ("ok-p12-size", "P12", [(T + "macros/implementations.jinja2", "  return m_obj->data.{{ relation.name }}_end - m_obj->data.{{ relation.name }}_begin;", "  return std::distance({{ relation.name }}_begin(), {{ relation.name }}_end());")]),
]

# ---------------------------------------------------------------- P30
MUTANTS += [
    ("p30-link-alias", "P30", [(LK, "    auto tmp = new LinkObjT(podio::ObjectID{}, m_obj->data);\n", "    auto tmp = new LinkObjT(m_obj->id, m_obj->data);\n")]),
    ("p30-link-swap-ends", "P30", [(LK, "tmp->m_to = std::make_unique<ToT>(*m_obj->m_to);", "tmp->m_to.reset(m_obj->m_to.get());")]),
    ("p30-link-noweight", "P30", [(LK, "    auto tmp = new LinkObjT(podio::ObjectID{}, m_obj->data);\n", "    auto tmp = new LinkObjT();\n    if (cloneRelations) {\n      tmp->data = m_obj->data;\n    }\n")]),
    ("p30-link-nested", "P30", [(LK, "        tmp->m_from = std::make_unique<FromT>(*m_obj->m_from);\n      }\n      if (m_obj->m_to) {\n        tmp->m_to = std::make_unique<ToT>(*m_obj->m_to);\n      }\n", "        tmp->m_from = std::make_unique<FromT>(*m_obj->m_from);\n        if (m_obj->m_to) {\n          tmp->m_to = std::make_unique<ToT>(*m_obj->m_to);\n        }\n      }\n")]),
    ("p30-link-always", "P30", [(LK, "    if (cloneRelations) {\n      if (m_obj->m_from) {", "    if (cloneRelations || m_obj->id.index >= 0) {\n      if (m_obj->m_from) {")]),
    ("p30-link-tracked", "P30", [(LK, "    return MutableLink<FromU, ToU>(podio::utils::MaybeSharedPtr(tmp, podio::utils::MarkOwned));", "    return MutableLink<FromU, ToU>(podio::utils::MaybeSharedPtr(tmp));")]),
    ("p30-slice", "P30", [(T + "macros/implementations.jinja2", "for (size_t i = m_obj->data.{{ relation.name }}_begin; i <", "for (size_t i = 0; i <")]),
    ("p30-noend", "P30", [(T + "macros/implementations.jinja2", "    tmp->data.{{ relation.name }}_end = tmp->m_{{ relation.name }}->size();\n", "")]),
    ("p30-nobegin", "P30", [(T + "macros/implementations.jinja2", "    tmp->data.{{ relation.name }}_begin = 0;\n    tmp->data.{{ relation.name }}_end = tmp", "    tmp->data.{{ relation.name }}_end = tmp")]),
    ("p30-obj-revert", "P30", [(T + "Obj.cc.jinja2", "(other.m_{{ relation.name }}->begin() + other.data.{{ relation.name }}_begin, other.m_{{ relation.name }}->begin() + other.data.{{ relation.name }}_end)", "(*other.m_{{ relation.name }})")]),
    ("p30-mut-norel", "P30", [(T + "macros/implementations.jinja2", "    tmp->m_{{ relation.name }} = new std::vector<{{ relation.full_type }}>();\n    tmp->data.{{ relation.name }}_begin = 0;", "    tmp->m_{{ relation.name }} = m_obj->m_{{ relation.name }};\n    tmp->data.{{ relation.name }}_begin = 0;")]),
    ("p30-obj-id", "P30", [(T + "Obj.cc.jinja2", "  data(other.data){{ single_relations_initialize(OneToOneRelations) }}", "  id(other.id), data(other.data){{ single_relations_initialize(OneToOneRelations) }}")]),
]
BENIGN += [
    ("ok-p30-link-early", "P30", [(LK, "    if (cloneRelations) {\n      if (m_obj->m_from) {", "    if (!cloneRelations) {\n      return MutableLink<FromU, ToU>(podio::utils::MaybeSharedPtr(tmp, podio::utils::MarkOwned));\n    }\n    {\n      if (m_obj->m_from) {")]),
    ("ok-p30-link-and", "P30", [(LK, "    if (cloneRelations) {\n      if (m_obj->m_from) {\n        tmp->m_from = std::make_unique<FromT>(*m_obj->m_from);\n      }\n      if (m_obj->m_to) {\n        tmp->m_to = std::make_unique<ToT>(*m_obj->m_to);\n      }\n    }", "    const auto& orig = *m_obj;\n    if (cloneRelations && orig.m_to) {\n      tmp->m_to.reset(new ToT(*orig.m_to));\n    }\n    if (cloneRelations && orig.m_from) {\n      tmp->m_from.reset(new FromT(*orig.m_from));\n    }")]),
    ("ok-p30-link-owned-first", "P30", [(LK, "    return MutableLink<FromU, ToU>(podio::utils::MaybeSharedPtr(tmp, podio::utils::MarkOwned));", "    auto owner = podio::utils::MaybeSharedPtr<LinkObjT>(tmp, podio::utils::MarkOwned);\n    return MutableLink<FromU, ToU>(std::move(owner));")]),
    ("ok-p30-link-default", "P30", [(LK, "    auto tmp = new LinkObjT(podio::ObjectID{}, m_obj->data);\n", "    auto tmp = new LinkObjT();\n    tmp->data = m_obj->data;\n")]),
    ("ok-p30-insert", "P30", [(T + "macros/implementations.jinja2", "    for (size_t i = m_obj->data.{{ relation.name }}_begin; i < m_obj->data.{{ relation.name }}_end; i++) {\n      tmp->m_{{ relation.name }}->emplace_back((*m_obj->m_{{ relation.name }})[i]);\n    }", "    for (const auto& el : {{ relation.getter_name(get_syntax) }}()) {\n      tmp->m_{{ relation.name }}->push_back(el);\n    }")]),
    ("ok-p30-insert2", "P30", [(T + "macros/implementations.jinja2", "    for (size_t i = m_obj->data.{{ relation.name }}_begin; i < m_obj->data.{{ relation.name }}_end; i++) {\n      tmp->m_{{ relation.name }}->emplace_back((*m_obj->m_{{ relation.name }})[i]);\n    }", "    tmp->m_{{ relation.name }}->insert(tmp->m_{{ relation.name }}->end(), {{ relation.name }}_begin(), {{ relation.name }}_end());")]),
    ("ok-p30-insert3", "P30", [(T + "macros/implementations.jinja2", "    for (size_t i = m_obj->data.{{ relation.name }}_begin; i < m_obj->data.{{ relation.name }}_end; i++) {\n      tmp->m_{{ relation.name }}->emplace_back((*m_obj->m_{{ relation.name }})[i]);\n    }", "    for (size_t i = 0; i < {{ relation.name }}_size(); ++i) {\n      tmp->m_{{ relation.name }}->push_back(m_obj->m_{{ relation.name }}->at(m_obj->data.{{ relation.name }}_begin + i));\n    }")]),
    ("ok-p30-mut-size", "P30", [(T + "Obj.cc.jinja2", "  data.{{ relation.name }}_end = m_{{ relation.name }}->size();", "  data.{{ relation.name }}_end = other.data.{{ relation.name }}_end - other.data.{{ relation.name }}_begin;")]),
]

# ---------------------------------------------------------------- P11
IMP, COL = T + "macros/implementations.jinja2", T + "macros/collections.jinja2"
GU = "python/podio_gen/generator_utils.py"
CG = "python/podio_gen/cpp_generator.py"
MUTANTS += [
    ("p11-sub-get", "P11", [(IMP, "sub_member.getter_name(get_syntax) }}() const { return m_obj->data.{{ member.name }}.{{ sub_member.name }}; }", "sub_member.getter_name(get_syntax) }}() const { return m_obj->data.{{ member.name }}.{{ member.sub_members[1].name if sub_member.full_type == member.sub_members[1].full_type else sub_member.name }}; }")]),
    ("p11-array-at", "P11", [(IMP, "value) { m_obj->data.{{ member.name }}.at(i) = value; }", "value) { m_obj->data.{{ member.name }}[i] = value; }")]),
    ("p11-array-set0", "P11", [(IMP, "value) { m_obj->data.{{ member.name }}.at(i) = value; }", "value) { m_obj->data.{{ member.name }}.at(i); m_obj->data.{{ member.name }}[0] = value; }")]),
    ("p11-set-range", "P11", [(IMP, "({{ member.signature }}) { m_obj->data.{{ member.name }} = {{ member.name }}; }", "({{ member.signature }}) { if (!m_obj->data.{{ class.bare_type }}{{ member.name }}) m_obj->data.{{ member.name }} = {{ member.name }}; }".replace("!m_obj->data.{{ class.bare_type }}{{ member.name }}", "&m_obj->data.{{ member.name }} != nullptr && m_obj->id.index < 1000"))]),
    ("p11-column-all", "P11", [(COL, "nElem != 0 ? std::min(nElem, m_storage.entries.size()) : m_storage.entries.size();", "nElem > 0 && nElem < m_storage.entries.size() ? nElem + 1 - (nElem + 1 <= m_storage.entries.size() ? 0 : 1) : m_storage.entries.size();")]),
    ("p11-column-first", "P11", [(COL, "for (size_t i = 0; i < valid_size", "for (size_t i = nElem > 100 ? 1 : 0; i < valid_size")]),
    ("p11-column-max", "P11", [(COL, "std::min(nElem, m_storage.entries.size())", "std::max(nElem, m_storage.entries.size())")]),
    ("p11-link-get", "P11", [(LK, "    } else if constexpr (Index == 1) {\n      return getTo();", "    } else if constexpr (Index == 1 && !std::is_same_v<FromT, ToT>) {\n      return getTo();\n    } else if constexpr (Index == 1) {\n      return getFrom();")]),
    ("p11-link-set", "P11", [(LK, "    setTo(detail::GetDefaultHandleType<ToU>(value));", "    if constexpr (std::is_same_v<FromT, ToT>) {\n      setFrom(detail::GetDefaultHandleType<ToU>(value));\n    } else {\n      setTo(detail::GetDefaultHandleType<ToU>(value));\n    }")]),
    ("p11-link-weight", "P11", [(LK, "    m_obj->data.weight = value;", "    if (value >= 0) {\n      m_obj->data.weight = value;\n    }")]),
    ("p11-link-set-drop", "P11", [(LK, "    m_obj->m_to = std::make_unique<detail::GetDefaultHandleType<ToU>>(value);", "    m_obj->m_to = std::make_unique<detail::GetDefaultHandleType<ToU>>(value);\n    if (!m_obj->m_from) {\n      m_obj->data.weight = 1.f;\n    }")]),
    ("p11-signature", "P11", [(IMP, "  m_obj->data.{{ member.name }} = {{ member.name }};\n{% endfor %}\n}", "{% if member.name != members[-1].name or members | length == 1 or member.default_val is none %}\n  m_obj->data.{{ member.name }} = {{ member.name }};\n{% endif %}\n{% endfor %}\n}")]),
    ("p11-default", "P11", [(GU, '        if self.default_val:\n            definition = rf"{scoped_type} {self.name}{{{self.default_val}}};"\n        else:\n            definition = rf"{scoped_type} {self.name}{{}};"\n\n        if self.docstring:\n            definition += rf" ///< {self.docstring}"\n        return definition\n\n    def __repr__', '        if self.default_val and not self.docstring:\n            definition = rf"{scoped_type} {self.name}{{{self.default_val}}};"\n        else:\n            definition = rf"{scoped_type} {self.name}{{}};"\n\n        if self.docstring:\n            definition += rf" ///< {self.docstring}"\n        return definition\n\n    def __repr__')]),
    ("p11-sub-members", "P11", [(CG, 'member.sub_members = comp["Members"]', 'member.sub_members = comp["Members"][:2]')]),
]
BENIGN += [
    ("ok-p11-array-set", "P11", [(IMP, "value) { m_obj->data.{{ member.name }}.at(i) = value; }", "value) { auto& a = m_obj->data.{{ member.name }}; a.at(i) = value; }")]),
    ("ok-p11-array-if", "P11", [(IMP, "value) { m_obj->data.{{ member.name }}.at(i) = value; }", "value) { auto& a = m_obj->data.{{ member.name }}; if (i >= a.size()) { throw std::out_of_range(\"no such element\"); } a[i] = value; }")]),
    ("ok-p11-column", "P11", [(COL, "  const auto valid_size = nElem != 0 ? std::min(nElem, m_storage.entries.size()) : m_storage.entries.size();", "  auto valid_size = m_storage.entries.size();\n  if (nElem > 0 && nElem < valid_size) {\n    valid_size = nElem;\n  }")]),
    ("ok-p11-column2", "P11", [(COL, "  for (size_t i = 0; i < valid_size; ++i) {\n    tmp.emplace_back(m_storage.entries[i]->data.{{ member.name }});\n  }", "  for (size_t i = 0; i != valid_size; i++) {\n    const auto* entry = m_storage.entries[i];\n    tmp.push_back(entry->data.{{ member.name }});\n  }")]),
    ("ok-p11-link", "P11", [(LK, "    if (!m_obj->m_to) {\n      return ToT::makeEmpty();\n    }\n    return ToT(*(m_obj->m_to));", "    return m_obj->m_to ? *(m_obj->m_to) : ToT::makeEmpty();")]),
    ("ok-p11-link-set", "P11", [(LK, "    m_obj->m_to = std::make_unique<detail::GetDefaultHandleType<ToU>>(value);", "    auto end = std::make_unique<ToT>(std::move(value));\n    m_obj->m_to = std::move(end);")]),
    ("ok-p11-link-set2", "P11", [(LK, "    setTo(detail::GetDefaultHandleType<ToU>(value));", "    m_obj->m_to = std::make_unique<ToT>(value);")]),
    ("ok-p11-ref", "P11", [(IMP, "({{ member.signature }}) { m_obj->data.{{ member.name }} = {{ member.name }}; }", "({{ member.signature }}) { auto& data = m_obj->data; data.{{ member.name }} = {{ member.name }}; }")]),
    ("ok-p11-one", "P11", [(IMP, "  m_obj->data.{{ member.name }} = {{ member.name }};\n{% endfor %}\n}", "  this->{{ member.name }}() = {{ member.name }};\n{% endfor %}\n}" if False else "  auto* const o{{ member.name }} = m_obj.get();\n  o{{ member.name }}->data.{{ member.name }} = {{ member.name }};\n{% endfor %}\n}")]),
]

IF, IFM, TH, OK = T + "Interface.h.jinja2", T + "macros/interface.jinja2", "include/podio/utilities/TypeHelpers.h", "include/podio/detail/OrderKey.h"
IA = "    return typeid(T) == m_self->typeInfo();"
AS = "    if (!isA<T>()) {\n      throw std::runtime_error(\"Cannot get value as object currently holds another type\");\n    }\n"
MUTANTS += [
    ("p21-equal-type", "P21", [(IF, "      if (typeInfo() == rhs->typeInfo()) {\n        return m_value", "      if (getObjectID().collectionID == rhs->getObjectID().collectionID) {\n        return m_value")]),
    ("p21-model-avail", "P21", [(IF, "bool isAvailable() const final { return m_value.isAvailable(); }", "bool isAvailable() const final { return m_value.getObjectID().index >= 0; }")]),
    ("p21-as-unchecked", "P21", [(IF, AS, "    if (isAvailable() && !isA<T>()) {\n      throw std::runtime_error(\"Cannot get value as object currently holds another type\");\n    }\n")]),
    ("p21-isa-avail", "P21", [(IF, IA, "    return isAvailable() && typeid(T) == m_self->typeInfo();")]),
    ("p21-isa-fallback", "P21", [(IF, IA, "    return typeid(T) == m_self->typeInfo() || !isAvailable();")]),
    ("p21-order-id", "P21", [(IF, "    return lhs.m_self->objOrderKey() < rhs.m_self->objOrderKey();", "    return lhs.m_self->getObjectID().index < rhs.m_self->getObjectID().index;")]),
    ("p21-order-self", "P21", [(IF, "    return lhs.m_self->objOrderKey() < rhs.m_self->objOrderKey();", "    return lhs.m_self < rhs.m_self;")]),
    ("p21-hash-name", "P21", [(IF, "return std::hash<ValueT>{}(m_value); }", "return std::hash<int>{}(m_value.getObjectID().index); }")]),
    ("p21-unlink-reset", "P21", [(IF, "    void unlink() final { m_value.unlink(); }", "    void unlink() final { if (m_value.getObjectID().index >= 0) { m_value.unlink(); } }")]),
    ("p21-self-assign", "P21", [(IF, "    std::swap(tmp.m_self, this->m_self);", "    if (isAvailable() || other.isAvailable()) {\n      std::swap(tmp.m_self, this->m_self);\n    }")]),
    ("p21-empty", "P21", [(IF, "    return {{ Types[0] }}::makeEmpty();", "    return Mutable{{ Types[0].bare_type }}();" if False else "    return podio::detail::GetMutableHandleType<{{ Types[0] }}>();")]),


    ("p21-id-cached", "P21", [(IF, "  podio::ObjectID id() const { return getObjectID(); }", "  podio::ObjectID id() const { return isAvailable() ? getObjectID() : podio::ObjectID{}; }")]),
    ("p21-tuple-conv", "P21", [(TH, "std::disjunction<std::is_same<T, Ts>...>", "std::disjunction<std::is_convertible<T, Ts>...>")]),

    ("p21-key-equal", "P21", [(OK, "return std::less<const void*>{}", "return std::less_equal<const void*>{}")]),


    ("p21-swap-copy", "P21", [(IF, "    m_self(other.m_self->clone()) {}", "    m_self(other.isAvailable() ? other.m_self->clone() : makeEmpty().m_self->clone()) {}")]),
]
BENIGN += [
    ("ok-p21-isa", "P21", [(IF, IA, "    return dynamic_cast<const Model<T>*>(m_self.get()) != nullptr;")]),
    ("ok-p21-isa2", "P21", [(IF, IA, "    const auto& held = m_self->typeInfo();\n    return held == typeid(T);")]),
    ("ok-p21-as", "P21", [(IF, AS + "    // We can safely cast here since we check types before\n    return static_cast<Model<T>*>(m_self.get())->m_value;", "    if (const auto* model = dynamic_cast<const Model<T>*>(m_self.get())) {\n      return model->m_value;\n    }\n    throw std::runtime_error(\"Cannot get value as object currently holds another type\");")]),
    ("ok-p21-as2", "P21", [(IF, AS, "    const bool same = isA<T>();\n    if (same == false) {\n      throw std::runtime_error(\"Cannot get value as object currently holds another type\");\n    }\n")]),
    ("ok-p21-assign", "P21", [(IF, "    {{ class.bare_type }} tmp{other};\n    std::swap(tmp.m_self, this->m_self);", "    if (this != &other) {\n      m_self = other.m_self->clone();\n    }")]),
    ("ok-p21-equal", "P21", [(IF, "      if (typeInfo() == rhs->typeInfo()) {\n        return m_value == static_cast<const Model<ValueT>*>(rhs)->m_value;\n      }\n      return false;", "      const auto* other = dynamic_cast<const Model<ValueT>*>(rhs);\n      return other != nullptr && m_value == other->m_value;")]),
    ("ok-p21-equal2", "P21", [(IF, "      if (typeInfo() == rhs->typeInfo()) {\n        return m_value == static_cast<const Model<ValueT>*>(rhs)->m_value;\n      }\n      return false;", "      if (typeInfo() != rhs->typeInfo()) {\n        return false;\n      }\n      const auto& other = static_cast<const Model<ValueT>&>(*rhs);\n      return m_value == other.m_value;")]),
    ("ok-p21-clone", "P21", [(IF, "      return std::make_unique<Model<ValueT>>(m_value);", "      return std::unique_ptr<Concept>(new Model<ValueT>(*this));")]),
    ("ok-p21-id", "P21", [(IF, "  podio::ObjectID id() const { return getObjectID(); }", "  podio::ObjectID id() const { return m_self->getObjectID(); }")]),
    ("ok-p21-tuple", "P21", [(TH, "struct TypeInTupleHelper<T, std::tuple<Ts...>> : std::disjunction<std::is_same<T, Ts>...> {};", "struct TypeInTupleHelper<T, std::tuple<Ts...>> : std::bool_constant<(std::is_same_v<T, Ts> || ...)> {};")]),
    ("ok-p21-empty", "P21", [(IF, "    return {{ Types[0] }}::makeEmpty();", "    const auto none = {{ Types[0] }}::makeEmpty();\n    return {{ class.bare_type }}(none);")]),
]
DV = '        if self.default_val:\n            definition = rf"{scoped_type} {self.name}{{{self.default_val}}};"\n'
MUTANTS += [
    ("p11-default-array", "P11", [(GU, DV, DV.replace("if self.default_val:", "if self.default_val and not self.is_array:"))]),
    ("p11-default-first", "P11", [(GU, DV, DV.replace("{{{self.default_val}}}", "{{{self.default_val.split(', ')[0]}}}"))]),
    ("p11-default-bool", "P11", [(GU, DV, DV.replace("if self.default_val:", "if self.default_val and self.default_val != 'true':"))]),
]
BENIGN += [
    ("ok-p11-default-eq", "P11", [(GU, DV, DV.replace("{self.name}{{", "{self.name} = {{"))]),
    ("ok-p11-default-strip", "P11", [(GU, DV, DV.replace("if self.default_val:", "if self.default_val is not None and self.default_val.strip():"))]),
]

LCM = "include/podio/detail/LinkCollectionImpl.h"
OBJH, DECL = T + "Object.h.jinja2", T + "macros/declarations.jinja2"
UDC = "include/podio/UserDataCollection.h"
MUTANTS += [
    ("p01-link-weight", "P01", [(LK, "    requires(Mut && Mutable)\n  void setWeight", "    requires(Mut == Mutable)\n  void setWeight")]),
    ("p01-link-set-iface", "P01", [(LK, "    requires(Mutable && detail::isInterfaceInitializableFrom<ToT, ToU>)", "    requires(detail::isInterfaceInitializableFrom<ToT, ToU>)")]),
    ("p01-link-convert", "P01", [(LK, "    requires Mutable && sameTypes<FromU, ToU>\n  operator LinkT<FromU, ToU, false>() const {\n    return Link<FromU, ToU>(m_obj);", "    requires sameTypes<FromU, ToU>\n  operator LinkT<FromU, ToU, !Mutable>() const {\n    return LinkT<FromU, ToU, !Mutable>(m_obj);")]),
    ("p01-link-clone", "P01", [(LK, "    auto tmp = new LinkObjT(podio::ObjectID{}, m_obj->data);", "    if (cloneRelations && m_obj->id.index == podio::ObjectID::untracked) {\n      return MutableLink<FromU, ToU>(m_obj);\n    }\n    auto tmp = new LinkObjT(podio::ObjectID{}, m_obj->data);")]),
    ("p01-link-from", "P01", [(LK, "  const FromT getFrom() const {\n    if (!m_obj->m_from) {\n      return FromT::makeEmpty();", "  const FromT getFrom() const {\n    if (!m_obj->m_from) {\n      const_cast<LinkObjT*>(m_obj.get())->m_from = std::make_unique<FromT>(FromT::makeEmpty());\n      return FromT::makeEmpty();")]),
    ("p01-link-coll-at", "P01", [(LCM, "  value_type at(std::size_t index) const {\n    return value_type(m_storage.entries.at(index))", "  mutable_type at(std::size_t index) const {\n    return mutable_type(podio::utils::MaybeSharedPtr(m_storage.entries.at(index)))")]),
    ("p01-user-index", "P01", [(UDC, "  typename std::vector<BasicType>::const_reference operator[](size_t idx) const {\n    return _vec[idx];", "  typename std::vector<BasicType>::reference operator[](size_t idx) const {\n    return const_cast<BasicType&>(_vec[idx]);")]),
    ("p01-user-vec", "P01", [(UDC, "  const typename std::vector<BasicType>& vec() const {\n    return _vec;", "  std::vector<BasicType>& vec() const {\n    return const_cast<std::vector<BasicType>&>(_vec);")]),
    ("p01-frame-get", "P01", [(FR, "  const podio::CollectionBase* get(const std::string& name) const;", "  podio::CollectionBase* get(const std::string& name) const;"), (FR, "inline const podio::CollectionBase* Frame::get(const std::string& name) const {\n  return m_self->get(name);", "inline podio::CollectionBase* Frame::get(const std::string& name) const {\n  return const_cast<podio::CollectionBase*>(m_self->get(name));")]),
    ("p01-frame-params", "P01", [(FR, "  inline const podio::GenericParameters& getParameters() const {", "  inline podio::GenericParameters& getParameters() const {")]),
    ("p01-frame-putparam", "P01", [(FR, "  inline auto getParameter(const std::string& key) const {\n", "  inline auto getParameter(const std::string& key) const {\n    if (!m_self->parameters().get<T>(key)) {\n      m_self->parameters().set(key, T{});\n    }\n")]),
    ("p01-mut-ctor", "P01", [(T + "MutableObject.h.jinja2", "  {{ class.bare_type }}Obj* obj" if False else "private:\n", "public:\n")]),
    ("p01-link-coll-rbegin", "P01", [(LCM, "  const_reverse_iterator rbegin() const {\n    return const_reverse_iterator(end());\n  }\n  const_reverse_iterator crbegin() const {\n    return rbegin();", "  reverse_iterator rbegin() const {\n    return const_cast<LinkCollection*>(this)->rbegin();\n  }\n  const_reverse_iterator crbegin() const {\n    return const_reverse_iterator(end());")]),
    ("p01-swap-data", "P01", [(LCM, "  value_type operator[](std::size_t index) const {\n    return", "  value_type operator[](std::size_t index) const {\n    m_storage.entries[index]->id.index = static_cast<int>(index);\n    return")]),
    ("p01-range-mut", "P01", [(RR, "  constexpr ReferenceType front() const {\n    return *m_begin;", "  constexpr ReferenceType& front() const {\n    return const_cast<ReferenceType&>(*m_begin);")]),
    ("p01-prepare-move", "P01", [(LCM, "  void prepareForWrite() const override {\n", "  void prepareForWrite() const override {\n    for (auto* obj : m_storage.entries) {\n      obj->id.collectionID = m_collectionID;\n    }\n")]),
]
BENIGN += [
    ("ok-p01-link-requires", "P01", [(LK, "    requires(Mut && Mutable)\n  void setWeight", "    requires(Mutable && Mut == Mutable)\n  void setWeight")]),
    ("ok-p01-link-from", "P01", [(LK, "    if (!m_obj->m_from) {\n      return FromT::makeEmpty();\n    }\n    return FromT(*(m_obj->m_from));", "    const auto& from = m_obj->m_from;\n    return from ? *from : FromT::makeEmpty();")]),
    ("ok-p01-user", "P01", [(UDC, "  typename std::vector<BasicType>::const_reference operator[](size_t idx) const {\n    return _vec[idx];", "  const BasicType& operator[](size_t idx) const {\n    const auto& values = vec();\n    return values[idx];")]),
    ("ok-p01-frame-get", "P01", [(FR, "inline const podio::CollectionBase* Frame::get(const std::string& name) const {\n  return m_self->get(name);", "inline const podio::CollectionBase* Frame::get(const std::string& name) const {\n  const auto* const coll = m_self->get(name);\n  return coll;")]),
    ("ok-p01-range", "P01", [(RR, "  constexpr ReferenceType front() const {\n    return *m_begin;", "  constexpr const ReferenceType& front() const {\n    return *m_begin;")]),
    ("ok-p01-coll-at", "P01", [(LCM, "  value_type at(std::size_t index) const {\n    return value_type(m_storage.entries.at(index));", "  value_type at(std::size_t index) const {\n    auto* const obj = m_storage.entries.at(index);\n    return value_type(podio::utils::MaybeSharedPtr(obj));")]),
]

CCJ = T + "Collection.cc.jinja2"
MUTANTS += [
    ("p32-link-flag-first", "P32", [(LCM, "    if (!m_storage.entries.empty()) {\n      throw std::logic_error(\"Cannot change", "    m_isSubsetColl = setSubset;\n    if (!m_storage.entries.empty()) {\n      throw std::logic_error(\"Cannot change")]),
    ("p32-link-id-first", "P32", [(LCM, "      if (obj->id.index == podio::ObjectID::untracked) {\n        obj->id = {static_cast<int>(m_storage.entries.size()), m_collectionID};\n", "      const bool fresh = obj->id.index == podio::ObjectID::untracked;\n      obj->id = {static_cast<int>(m_storage.entries.size()), m_collectionID};\n      if (fresh) {\n")]),
    ("p32-link-push-first", "P32", [(LCM, "    if (obj->id.index < 0) {\n      throw std::invalid_argument(\n", "    m_storage.entries.push_back(obj.get());\n    if (obj->id.index < 0) {\n      throw std::invalid_argument(\n")]),
    ("p32-frame-param", "P32", [(FR, "  return *static_cast<const CollT*>(m_self->put(std::make_unique<CollT>(std::move(coll)), name));", "  m_self->parameters().set(name + \"__type\", std::string(coll.getTypeName()));\n  return *static_cast<const CollT*>(m_self->put(std::make_unique<CollT>(std::move(coll)), name));")]),
    ("p32-frame-replace", "P32", [(FR, "      throw std::invalid_argument(\"An object with key \" + name", "      m_idTable.add(name + \"_duplicate\");\n      throw std::invalid_argument(\"An object with key \" + name")]) if False else
    ("p32-frame-erase", "P32", [(FR, "      throw std::invalid_argument(\"An object with key \" + name", "      m_collections.erase(name);\n      throw std::invalid_argument(\"An object with key \" + name")]),
    ("p32-coll-create", "P32", [(CCJ, "  if (m_isSubsetColl) {\n    throw std::logic_error(\"Cannot create", "  m_isPrepared = false;\n  if (m_isSubsetColl) {\n    throw std::logic_error(\"Cannot create")]),
    ("p32-coll-subset", "P32", [(CCJ, "  if (!m_storage.entries.empty()) {\n    throw std::logic_error(\"Cannot change", "  if (setSubset) {\n    m_storage.makeSubsetCollection();\n  }\n  if (!m_storage.entries.empty()) {\n    throw std::logic_error(\"Cannot change")]),
    ("p32-coll-id", "P32", [(CCJ, "      throw std::invalid_argument(\"Object already in", "      obj->id.collectionID = m_collectionID;\n      throw std::invalid_argument(\"Object already in")]),
    ("p32-prepared", "P32", [(T + "CollectionData.cc.jinja2", "ID_PLACEHOLDER", "ID_PLACEHOLDER")]) if False else
    ("p32-prepared", "P32", [(CCJ, "  m_storage.prepareForWrite(m_isSubsetColl);\n", "  m_isPrepared = true;\n  m_storage.prepareForWrite(m_isSubsetColl);\n")]),
]
BENIGN += [
    ("ok-p32-link", "P32", [(LCM, "    if (!m_storage.entries.empty()) {\n      throw std::logic_error(\"Cannot change", "    const auto n = m_storage.entries.size();\n    if (n != 0) {\n      throw std::logic_error(\"Cannot change")]),
    ("ok-p32-put-find", "P32", [(FR, "    auto [it, success] = m_collections.try_emplace(name, std::move(coll));\n", "    if (m_collections.find(name) != m_collections.end()) {\n      throw std::invalid_argument(\"An object with key \" + name + \" already exists in the frame\");\n    }\n    auto [it, success] = m_collections.try_emplace(name, std::move(coll));\n")]),
    ("ok-p32-coll-create", "P32", [(CCJ, "  if (m_isSubsetColl) {\n    throw std::logic_error(\"Cannot create", "  const auto index = m_storage.entries.size();\n  if (index >= 0 && m_isSubsetColl) {\n    throw std::logic_error(\"Cannot create")]),
    ("ok-p32-frame-id-first", "P32", [(FR, "    auto [it, success] = m_collections.try_emplace(name, std::move(coll));\n", "    const auto id = m_idTable.add(name);\n    coll->setID(id);\n    auto [it, success] = m_collections.try_emplace(name, std::move(coll));\n")]),
]

CR, GB, PCG = "python/podio_gen/podio_config_reader.py", "python/podio_gen/generator_base.py", "python/podio_class_generator.py"
MUTANTS += [
    ("p16-comp-array", "P16", [(CR, "                is_component_array = member.is_array and cls._check_comp(\n                    member.array_type, datamodel.components, upstream_edm\n                )\n", "                is_component_array = member.is_array\n")]),
    ("p16-comp-first", "P16", [(CR, "                if not is_builtin and not is_component:\n                    raise DefinitionError(\n                        f\"{member.name} of component {name}", "                if is_builtin:\n                    break\n                if not is_component:\n                    raise DefinitionError(\n                        f\"{member.name} of component {name}")]),
    ("p16-comp-extra", "P16", [(CR, "if key not in (\"declaration\", \"declarationFile\", \"includes\"):", "if key not in cls.valid_extra_code_keys:")]),
    ("p16-comp-keys", "P16", [(CR, "if field not in [\"Members\", \"ExtraCode\", \"Description\", \"Author\"]:", "if field not in [\"Members\", \"VectorMembers\", \"ExtraCode\", \"Description\", \"Author\"]:")]),
    ("p16-required-any", "P16", [(CR, "        for key in cls.required_datatype_keys:\n            if key not in definition:\n                raise DefinitionError(f\"'{classname}' does not define '{key}'\")", "        if not any(key in definition for key in cls.required_datatype_keys):\n            raise DefinitionError(f\"'{classname}' does not define {cls.required_datatype_keys}\")")]),
    ("p16-iface-upstream", "P16", [(CR, "        all_types.extend(ext_types)\n\n        for name, definition in datamodel.interfaces.items():\n            if name in all_types or", "\n        for name, definition in datamodel.interfaces.items():\n            if name in all_types or"), (CR, "            cls._check_interface_types(name, definition, all_types)", "            cls._check_interface_types(name, definition, all_types + list(ext_types))")]),
    ("p16-link-to", "P16", [(CR, "            if definition[link_dir].full_type not in known_datatypes:", "            if definition[\"From\"].full_type not in known_datatypes:")]),
    ("p16-link-fields", "P16", [(CR, "        if invalid_keys:\n            raise DefinitionError(f\"{cat_name} '{name}' defines invalid fields", "        if invalid_keys and cat_name == \"interface\":\n            raise DefinitionError(f\"{cat_name} '{name}' defines invalid fields")]),
    ("p16-clash-reset", "P16", [(CR, "                comp = datamodel.components.get(member.full_type) or (", "                all_members = {member.name: classname}\n                comp = datamodel.components.get(member.full_type) or (")]),
    ("p16-sub-record", "P16", [(CR, "                    all_members[sub_member.name] = f\"member '{member.name}'\"\n", "")]),
    ("p16-sub-array", "P16", [(CR, "if expose_pod_members and not member.is_builtin and not member.is_array:", "if expose_pod_members and not member.is_builtin and not member.is_array and not upstream_edm:")]),
    ("p16-rel-upstream", "P16", [(CR, "                rel_type in upstream_edm.datatypes or rel_type in upstream_edm.interfaces\n", "                rel_type in upstream_edm.datatypes or rel_type not in upstream_edm.components\n")]),
    ("p16-rel-comp", "P16", [(CR, "if rel_type in datamodel.datatypes or rel_type in datamodel.interfaces:", "if rel_type in datamodel.datatypes or rel_type in datamodel.interfaces or rel_type in datamodel.components:")]),
    ("p16-vec", "P16", [(CR, "            if not vecmem.is_builtin and not cls._check_comp(", "            if not vecmem.is_builtin and vecmem.full_type not in datamodel.datatypes and not cls._check_comp(")]),
    ("p16-one-return", "P16", [(CR, "        one_relations = definition.get(\"OneToOneRelations\", [])\n", "        if not many_relations:\n            return\n        one_relations = definition.get(\"OneToOneRelations\", [])\n")]),
    ("p16-member-types", "P16", [(CR, "in_definitions = member.full_type in all_types or member.array_type in all_types", "in_definitions = member.full_type in all_types or member.is_array")]),
    ("p16-order", "P16", [(CR, "        validator.validate(datamodel, upstream_edm)\n        return datamodel", "        validator.validate(datamodel)\n        return datamodel")]),
    ("p16-skip-unknown", "P16", [(CR, "            else:\n                datatype[category] = copy.deepcopy(definition)\n", "            elif category in ClassDefinitionValidator.required_datatype_keys:\n                datatype[category] = copy.deepcopy(definition)\n")]),
    ("p16-descr", "P16", [(CR, "                    members.append(cls.member_parser.parse(member))\n                datatype[category]", "                    members.append(cls.member_parser.parse(member, category == \"Members\"))\n                datatype[category]")]),
    ("p16-version", "P16", [(CR, "            if schema_version <= 0:", "            if schema_version < 0:")]),
    ("p16-exit", "P16", [(GB, "            print(f\"Error while generating the datamodel: {err}\")\n            sys.exit(1)", "            print(f\"Error while generating the datamodel: {err}\")\n            sys.exit(0)")]),
    ("p16-upstream", "P16", [(PCG, "        raise argparse.ArgumentTypeError(\n            f\"{path} does not contain a valid datamodel definition\"\n        ) from err", "        print(f\"{path} does not contain a valid datamodel definition\")\n        return None")]),
    ("p16-parser", "P16", [(CR, "                self._parse_with_regexps(string, no_desc_matchers_cbs)\n", "                return self._parse_with_regexps(string, no_desc_matchers_cbs)\n")]),
    ("p16-fixed", "P16", [("python/podio_gen/generator_utils.py", "(_(fast|least))?", "(_fast|least)?")]),
    ("p16-iface-types", "P16", [(CR, "        for wrapped_type in definition[\"Types\"]:\n            if wrapped_type.full_type not in known_datatypes:", "        for wrapped_type in definition[\"Types\"][1:]:\n            if wrapped_type.full_type not in known_datatypes:")]),
    ("p16-datatypes-one", "P16", [(CR, "            cls._check_datatype(name, definition, expose_pod_members, datamodel, upstream_edm)\n\n", "            if upstream_edm and name in upstream_edm.datatypes:\n                continue\n            cls._check_datatype(name, definition, expose_pod_members, datamodel, upstream_edm)\n\n")]),
]
BENIGN += [
    ("ok-p16-keys-set", "P16", [(CR, "        invalid_keys = [k for k in definition.keys() if k not in required_keys]\n", "        invalid_keys = sorted(set(definition) - set(required_keys))\n")]),
    ("ok-p16-all", "P16", [(CR, "        for key in cls.required_datatype_keys:\n            if key not in definition:\n                raise DefinitionError(f\"'{classname}' does not define '{key}'\")", "        missing = [k for k in cls.required_datatype_keys if k not in definition]\n        if missing:\n            raise DefinitionError(f\"'{classname}' does not define {missing}\")")]),
    ("ok-p16-any", "P16", [(CR, "        for wrapped_type in definition[\"Types\"]:\n            if wrapped_type.full_type not in known_datatypes:\n                raise DefinitionError(\n                    f\"interface '{name}' tries to use Type '{wrapped_type}' which is undefined\"\n                )", "        if any(t.full_type not in known_datatypes for t in definition[\"Types\"]):\n            raise DefinitionError(f\"interface '{name}' tries to use an undefined type\")")]),
    ("ok-p16-count", "P16", [(CR, "            member_names = set()\n", "            names = [m.name for m in component[\"Members\"]]\n            if len(set(names)) != len(names):\n                raise DefinitionError(f\"clash in {name}\")\n            member_names = set()\n")]),
    ("ok-p16-names", "P16", [(CR, "            if member.name in all_members:\n                raise", "            if all_members.get(member.name) is not None:\n                raise")]),
    ("ok-p16-helper", "P16", [(CR, "        many_relations = definition.get(\"OneToManyRelations\", [])\n        for relation in many_relations:\n            if not _valid_datatype(relation.full_type):\n                raise DefinitionError(\n                    f\"'{classname}' declares a invalid many-relation to '{relation.full_type}'\"\n                )\n\n        one_relations = definition.get(\"OneToOneRelations\", [])\n        for relation in one_relations:\n            if not _valid_datatype(relation.full_type):\n                raise DefinitionError(\n                    f\"'{classname}' declares an invalid single-relation to '{relation.full_type}'\"\n                )\n",
     "        def _check(kind, key):\n            for relation in definition.get(key, []):\n                if _valid_datatype(relation.full_type):\n                    continue\n                raise DefinitionError(f\"'{classname}' declares an invalid {kind}-relation to '{relation.full_type}'\")\n\n        _check(\"many\", \"OneToManyRelations\")\n        _check(\"single\", \"OneToOneRelations\")\n")]),
    ("ok-p16-valid", "P16", [(CR, "            if rel_type in datamodel.datatypes or rel_type in datamodel.interfaces:\n                return True\n            if upstream_edm and (\n                rel_type in upstream_edm.datatypes or rel_type in upstream_edm.interfaces\n            ):\n                return True\n            return False\n",
     "            models = [datamodel] + ([upstream_edm] if upstream_edm else [])\n            return any(rel_type in m.datatypes or rel_type in m.interfaces for m in models)\n")]),
    ("ok-p16-order", "P16", [(CR, "        cls._check_interfaces(datamodel, upstream_edm)\n        cls._check_links(datamodel, upstream_edm)\n", "        cls._check_links(datamodel, upstream_edm)\n        cls._check_interfaces(datamodel, upstream_edm)\n")]),
    ("ok-p16-comprehension", "P16", [(CR, "                component[\"Members\"] = []\n                for member in definition[name]:\n                    # for components we do not require a description in the members\n                    component[\"Members\"].append(cls.member_parser.parse(member, False))\n", "                component[name] = [\n                    cls.member_parser.parse(m, require_description=False) for m in definition[\"Members\"]\n                ]\n")]),
    ("ok-p16-dictcomp", "P16", [(CR, "        links = {}\n        if \"links\" in model_dict:\n            for klassname, value in model_dict[\"links\"].items():\n                links[klassname] = cls._read_link(value)\n", "        links = {k: cls._read_link(v) for k, v in model_dict.get(\"links\", {}).items()}\n")]),
    ("ok-p16-types-gen", "P16", [(CR, "        all_types = list(datamodel.components.keys())\n        ext_types = upstream_edm.components.keys() if upstream_edm else []\n        all_types.extend(ext_types)\n", "        all_types = set(datamodel.components)\n        if upstream_edm:\n            all_types |= set(upstream_edm.components)\n")]),
    ("ok-p16-link-both", "P16", [(CR, "        for link_dir in (\"From\", \"To\"):\n            if definition[link_dir].full_type not in known_datatypes:", "        undefined = [d for d in (\"From\", \"To\") if definition[d].full_type not in known_datatypes]\n        for link_dir in undefined:\n            if True:")]),
    ("ok-p16-version", "P16", [(CR, "            if schema_version <= 0:", "            if schema_version < 1:")]),
    ("ok-p16-parser", "P16", [(CR, "        for rgx, callback in regexps_callbacks:\n            result = rgx.match(string)\n            if result:\n                return callback(result)\n", "        for rgx, callback in regexps_callbacks:\n            result = rgx.match(string)\n            if result is None:\n                continue\n            return callback(result)\n")]),
    ("ok-p16-early", "P16", [(CR, "            if \"ExtraCode\" in component:\n                for key in component[\"ExtraCode\"]:\n", "            extra_code = component.get(\"ExtraCode\")\n            if extra_code:\n                for key in extra_code.keys():\n")]),
]

PSE, CPG = "python/podio_schema_evolution.py", "python/podio_gen/cpp_generator.py"
MUTANTS += [
    ("p15-empty-skip", "P15", [(PSE, "            members2 = {member.name: member for member in second[name][category]}\n", "            members2 = {member.name: member for member in second[name][category]}\n            if not members2:\n                continue\n")]),
    ("p15-bare", "P15", [(PSE, "                if old.full_type != new.full_type:\n", "                if old.bare_type != new.bare_type:\n")]),
    ("p15-first-change", "P15", [(PSE, "                    detected_schema_changes.append(ChangedMemberType(name, old, new))\n", "                    detected_schema_changes.append(ChangedMemberType(name, old, new))\n                    return detected_schema_changes\n")]),
    ("p15-vec-default", "P15", [(PSE, "                \"VectorMembers\",\n                AddedVectorMember,\n                DroppedVectorMember,\n", "                \"VectorMembers\",\n                dropped_change=DroppedVectorMember,\n")]),
    ("p15-many-one", "P15", [(PSE, "                \"OneToManyRelations\",\n                AddedMultiRelation,", "                \"OneToOneRelations\",\n                AddedMultiRelation,")]),
    ("p15-swap-classes", "P15", [(PSE, "                \"OneToOneRelations\",\n                AddedSingleRelation,\n                DroppedSingleRelation,", "                \"OneToOneRelations\",\n                DroppedSingleRelation,\n                AddedSingleRelation,")]),
    ("p15-keys-order", "P15", [(PSE, "        dropped = set(keys2).difference(keys1)\n", "        dropped = set(keys1).difference(keys2)\n")]),
    ("p15-old-def", "P15", [(PSE, "                [dropped_change(members2[member], name) for member in dropped_members]\n", "                [dropped_change(members2[member], member) for member in dropped_members]\n")]),
    ("p15-comp-members", "P15", [(PSE, "                kept_components,\n                self.datamodel_new.components,\n                old_datamodel.components,", "                kept_components,\n                self.datamodel_new.components,\n                self.datamodel_new.components,")]),
    ("p15-swap-old-new", "P15", [(PSE, "ChangedMemberType(name, old, new))", "ChangedMemberType(name, new, old))")]),
    ("p15-unsupported", "P15", [(PSE, "        AddedMultiRelation,\n        DroppedMultiRelation,\n    )\n", "        AddedMultiRelation,\n    )\n")]),
    ("p15-array-one-way", "P15", [(PSE, "if change.old_member.is_array != change.new_member.is_array:", "if change.old_member.is_array and not change.new_member.is_array:")]),
    ("p15-rename-class", "P15", [(PSE, "                and (schema_change.klassname == dropped_member.klassname)\n", "")]),
    ("p15-rename-to", "P15", [(PSE, "                and (schema_change.member_name_new == added_member.member.name)\n", "")]),
    ("p15-rename-type", "P15", [(PSE, "        if added_member.member.full_type != dropped_member.member.full_type:\n            # Different types cannot be a simple renaming\n            return self.RenameResult.NO_RENAME\n", "")]),
    ("p15-rename-bare", "P15", [(PSE, "        if added_member.member.full_type != dropped_member.member.full_type:\n", "        if added_member.member.bare_type != dropped_member.member.bare_type:\n")]),
    ("p15-rename-keep", "P15", [(PSE, "                schema_changes.remove(added_member)\n                schema_changes.append(schema_change)\n", "                schema_changes.append(schema_change)\n")]),
    ("p15-handled-default", "P15", [(PSE, "        return self.RenameResult.UNHANDLED\n", "        return self.RenameResult.HANDLED if read_schema_changes else self.RenameResult.UNHANDLED\n")]),
    ("p15-pairs-return", "P15", [(PSE, "                    f\"'{dropped_member.member.full_type}'.\"\n                )\n", "                    f\"'{dropped_member.member.full_type}'.\"\n                )\n            else:\n                break\n")]),
    ("p15-pairs-first", "P15", [(PSE, "                    filtered_list.append((added_member, dropped_member))\n", "                    filtered_list.append((added_member, dropped_member))\n                    break\n")]),
    ("p15-no-datatype-desc", "P15", [(PSE, "                elif migration.type == ChangeType.RENAME_DATATYPE:", "                elif migration.type == ChangeType.RENAME_MEMBER:")]),
    ("p15-read-swap", "P15", [(PSE, "                        klassname, migration.details[\"from\"], migration.details[\"to\"]\n", "                        klassname, migration.details[\"to\"], migration.details[\"from\"]\n")]),
    ("p15-read-first", "P15", [(PSE, "                    read_schema_changes.append(schema_change)\n                elif", "                    read_schema_changes.append(schema_change)\n                    break\n                elif")]),
    ("p15-sig-vec", "P15", [(PSE, "            \"Members\",\n            \"VectorMembers\",\n            \"OneToOneRelations\",\n            \"OneToManyRelations\",\n        )\n", "            \"Members\",\n            \"OneToOneRelations\",\n            \"OneToManyRelations\",\n        )\n")]),
    ("p15-sig-type", "P15", [(PSE, "sig.add((member.name, member.full_type))", "sig.add(member.name)")]),
    ("p15-sig-name", "P15", [(PSE, "sig.add((member.name, member.full_type))", "sig.add(member.full_type)")]),
    ("p15-exit-zero", "P15", [(CPG, "                for error in comparison_results.errors:\n                    print(error)\n                sys.exit(-1)", "                for error in comparison_results.errors:\n                    print(error)\n                sys.exit(0)")]),
    ("p15-warnings", "P15", [(CPG, "                for warning in comparison_results.warnings:\n                    print(warning)\n                sys.exit(-1)", "                for warning in comparison_results.warnings:\n                    print(warning)")]),
    ("p15-no-evo", "P15", [(CPG, "SchemaEvolutionJudge(comparator.datamodel_new, evolution_file=self.evolution_file)", "SchemaEvolutionJudge(comparator.datamodel_new)")]),
    ("p15-changed-types", "P15", [(CPG, "                        self.changed_datatypes[change.klassname].append(", "                        self.changed_components[change.klassname].append(")]),
    ("p15-first-file", "P15", [(CPG, "                        )\n\n        return old_datamodels", "                        )\n\n            return old_datamodels")]),
    ("p15-print-true", "P15", [(PSE, "                print(f\" - {error}\")\n            return False\n", "                print(f\" - {error}\")\n            return len(results.schema_changes) > 0\n")]),
    ("p15-main", "P15", [(PSE, "    if not comparator.print_comparison(comparison_results):\n        sys.exit(1)", "    comparator.print_comparison(comparison_results)")]),
    ("p15-main-swap", "P15", [(PSE, "reader.read(args.old, package_name=\"old\", ignore_extracode=True)", "reader.read(args.new, package_name=\"old\", ignore_extracode=True)")]),
    ("p15-errors-lost", "P15", [(PSE, "        return schema_changes, warnings, errors\n", "        return schema_changes, warnings, errors if schema_changes != detected_schema_changes else []\n")]),
]
BENIGN += [
    ("ok-p15-setops", "P15", [(PSE, "        added = set(keys1).difference(keys2)\n        dropped = set(keys2).difference(keys1)\n        kept = set(keys1).intersection(keys2)\n", "        added = [k for k in keys1 if k not in keys2]\n        dropped = [k for k in keys2 if k not in keys1]\n        kept = [k for k in keys1 if k in keys2]\n")]),
    ("ok-p15-sorted", "P15", [(PSE, "        added = set(keys1).difference(keys2)\n        dropped = set(keys2).difference(keys1)\n        kept = set(keys1).intersection(keys2)\n", "        added = sorted(set(keys1) - set(keys2))\n        dropped = sorted(set(keys2) - set(keys1))\n        kept = sorted(set(keys1) & set(keys2))\n")]),
    ("ok-p15-order", "P15", [(PSE, "        detected_schema_changes.extend(self._compare_components(old_datamodel))\n        detected_schema_changes.extend(self._compare_datatypes(old_datamodel))\n\n        return detected_schema_changes\n", "        return [*self._compare_datatypes(old_datamodel), *self._compare_components(old_datamodel)]\n")]),
    ("ok-p15-table", "P15", [(PSE, "        detected_schema_changes.extend(\n            self._compare_members(\n                kept_types,\n                self.datamodel_new.datatypes,\n                old_datamodel.datatypes,\n                \"OneToOneRelations\",\n                AddedSingleRelation,\n                DroppedSingleRelation,\n            )\n        )\n\n        detected_schema_changes.extend(\n            self._compare_members(\n                kept_types,\n                self.datamodel_new.datatypes,\n                old_datamodel.datatypes,\n                \"OneToManyRelations\",\n                AddedMultiRelation,\n                DroppedMultiRelation,\n            )\n        )\n",
     "        for category, added, dropped in (\n            (\"OneToOneRelations\", AddedSingleRelation, DroppedSingleRelation),\n            (\"OneToManyRelations\", AddedMultiRelation, DroppedMultiRelation),\n        ):\n            detected_schema_changes += self._compare_members(\n                kept_types, self.datamodel_new.datatypes, old_datamodel.datatypes, category, added, dropped\n            )\n")]),
    ("ok-p15-kept-comp", "P15", [(PSE, "            for member_name in kept_members:\n                new = members1[member_name]\n                old = members2[member_name]\n                if old.full_type != new.full_type:\n                    detected_schema_changes.append(ChangedMemberType(name, old, new))\n", "            detected_schema_changes.extend(\n                ChangedMemberType(name, members2[m], members1[m])\n                for m in kept_members\n                if members1[m].full_type != members2[m].full_type\n            )\n")]),
    ("ok-p15-zip", "P15", [(PSE, "                [added_change(members1[member], name) for member in added_members]\n", "                [added_change(m, name) for key, m in members1.items() if key in added_members]\n")]),
    ("ok-p15-judge", "P15", [(PSE, "        schema_changes, warnings, errors = self._heuristics(\n            old_datamodel, detected_schema_changes, self.read_schema_changes, warnings, errors\n        )\n", "        result = self._heuristics(\n            old_datamodel, detected_schema_changes, self.read_schema_changes, warnings, errors\n        )\n        schema_changes, warnings, errors = result\n")]),
    ("ok-p15-filter", "P15", [(PSE, "        filtered_list = []\n        for dropped_member in dropped_members:\n            for added_member in added_members:\n                if dropped_member.klassname == added_member.klassname:\n                    filtered_list.append((added_member, dropped_member))\n\n        return filtered_list\n", "        return [\n            (added, dropped)\n            for dropped in dropped_members\n            for added in added_members\n            if dropped.klassname == added.klassname\n        ]\n")]),
    ("ok-p15-unsupported", "P15", [(PSE, "        for change in (c for c in schema_changes if isinstance(c, self.unsupported_changes)):\n            errors.append(f\"Unsupported schema change: {change}\")\n", "        unsupported = [c for c in schema_changes if isinstance(c, self.unsupported_changes)]\n        errors.extend([f\"Unsupported schema change: {c}\" for c in unsupported])\n")]),
    ("ok-p15-read", "P15", [(PSE, "        for klassname, migration_list in migrations.items():\n            for migration in migration_list:\n                if migration.type", "        for klassname in migrations:\n            for migration in migrations[klassname]:\n                if migration.type")]),
    ("ok-p15-exit", "P15", [(CPG, "            if len(comparison_results.errors) > 0:", "            if comparison_results.errors:"), (CPG, "                    print(error)\n                sys.exit(-1)", "                    print(error)\n                sys.exit(\"incompatible\")")]),
    ("ok-p15-gen", "P15", [(CPG, "            old_schema_version = comparison_results.old_datamodel.schema_version\n            old_datamodels[old_schema_version] = comparison_results.old_datamodel\n", "            model = comparison_results.old_datamodel\n            old_schema_version = model.schema_version\n            old_datamodels[old_schema_version] = model\n"), (CPG, "                    if change.klassname in comparison_results.old_datamodel.components:\n                        self.changed_components[change.klassname].append(\n                            {\n                                \"version\": old_schema_version,\n                                \"definition\": comparison_results.old_datamodel.components[\n                                    change.klassname\n                                ],\n                                \"schema_change\": change,\n                            }\n                        )\n", "                    if change.klassname in model.components:\n                        entry = {\n                            \"version\": old_schema_version,\n                            \"definition\": model.components[change.klassname],\n                            \"schema_change\": change,\n                        }\n                        self.changed_components[change.klassname].append(entry)\n")]),
    ("ok-p15-print", "P15", [(PSE, "            return False\n\n        return True\n", "        return not results.errors\n")]),
    ("ok-p15-sig", "P15", [(PSE, "            sig = set()\n            for field in _MEMBER_FIELDS:\n                for member in datatype_definition.get(field, []):\n                    sig.add((member.name, member.full_type))\n            return sig\n", "            return {\n                (m.full_type, m.name) for field in _MEMBER_FIELDS for m in datatype_definition.get(field, [])\n            }\n")]),
    ("ok-p15-check", "P15", [(PSE, "        for schema_change in read_schema_changes:\n            if (\n                isinstance(schema_change, RenamedMember)\n                and (schema_change.klassname == dropped_member.klassname)\n                and (schema_change.member_name_old == dropped_member.member.name)\n                and (schema_change.member_name_new == added_member.member.name)\n            ):\n", "        renames = [c for c in read_schema_changes if isinstance(c, RenamedMember)]\n        for schema_change in renames:\n            names = (schema_change.member_name_old, schema_change.member_name_new)\n            if schema_change.klassname != dropped_member.klassname:\n                continue\n            if names == (dropped_member.member.name, added_member.member.name):\n")]),
]

JG = "python/podio_gen/julia_generator.py"
MUTANTS += [
    ("p23-unsorted-podio", "P23", [(CPG, "        podio_includes.sort()\n", "")]),
    ("p23-unsorted-upstream", "P23", [(CPG, "        upstream_includes.sort()\n", "")]),
    ("p23-raw-includes", "P23", [(CPG, "        datatype[\"includes_cc_obj\"] = self._sort_includes(includes_cc)\n", "        datatype[\"includes_cc_obj\"] = list(includes_cc)\n")]),
    ("p23-sort-len", "P23", [(CPG, "        stl_includes.sort()\n", "        stl_includes.sort(key=len)\n")]),
    ("p23-invert-set", "P23", [(CPG, "        types_in_interfaces = defaultdict(list)\n", "        types_in_interfaces = defaultdict(set)\n"), (CPG, "types_in_interfaces[if_type.full_type].append(name)", "types_in_interfaces[if_type.full_type].add(name)")]),
    ("p23-dropped-order", "P23", [(CPG, "for name in sorted(dropped_components):", "for name in dropped_components:")]),
    ("p23-compare-order", "P23", [(PSE, "return sorted(added), sorted(dropped), sorted(kept)", "return list(added), list(dropped), list(kept)")]),
    ("p23-jl-params", "P23", [(JG, "sorted(self._get_julia_params(datatype))", "list(self._get_julia_params(datatype))")]),
    ("p23-jl-ready", "P23", [(JG, "for component in sorted(ready):", "for component in ready:")]),
    ("p23-all-headers", "P23", [(CPG, "for x in list(self.datamodel.datatypes.keys()) + list(self.datamodel.links.keys())", "for x in set(self.datamodel.datatypes) | set(self.datamodel.links)")]),
    ("p23-generated-set", "P23", [(CPG, "src_files = (f for f in self.generated_files if f.endswith(\".cc\"))", "src_files = {f for f in self.generated_files if f.endswith(\".cc\")}")]),
    ("p23-headers-key", "P23", [(CPG, "        header_files = list(f for f in self.generated_files if f.endswith(\".h\"))\n", "        header_files = list({f for f in self.generated_files if f.endswith(\".h\")})\n"), (CPG, "header_files.sort(key=lambda f: (0 if \"Collection.h\" in f else 1, f))", "header_files.sort(key=lambda f: 0 if \"Collection.h\" in f else 1)")]),
    ("p23-headers-last", "P23", [(CPG, "(0 if \"Collection.h\" in f else 1, f)", "(1 if \"Collection.h\" in f else 0, f)")]),
    ("p23-wrong-suffix", "P23", [(CPG, "f.endswith(\".cc\"))", "f.endswith(\"Collection.cc\"))")]),
    ("p23-changes-last", "P23", [(GB, "            self.any_changes = changed or self.any_changes\n", "            self.any_changes = changed\n")]),
    ("p23-changes-and", "P23", [(GB, "            self.any_changes = changed or self.any_changes\n", "            self.any_changes = changed and self.any_changes\n")]),
    ("p23-register-changed", "P23", [(GB, "            self.generated_files.append(fullname)\n", ""), (GB, "            self.any_changes = changed or self.any_changes\n", "            if changed:\n                self.generated_files.append(fullname)\n            self.any_changes = changed or self.any_changes\n")]),
    ("p23-before-format", "P23", [(GB, "            if self.formatter_func is not None:\n                content = self.formatter_func(content, fullname)  # pylint: disable=not-callable\n\n            changed = write_file_if_changed(fullname, content)\n", "            changed = write_file_if_changed(fullname, content)\n            if changed and self.formatter_func is not None:\n                content = self.formatter_func(content, fullname)\n                write_file_if_changed(fullname, content)\n")]),
    ("p23-strip", "P23", [(GB, "changed = existing_content != content\n", "changed = existing_content.strip() != content.strip()\n")]),
    ("p23-length", "P23", [(GB, "changed = existing_content != content\n", "changed = len(existing_content) != len(content)\n")]),
    ("p23-append-mode", "P23", [(GB, "with open(filename, \"w\", encoding=\"utf-8\") as outfile:", "with open(filename, \"r+\" if os.path.exists(filename) else \"w\", encoding=\"utf-8\") as outfile:")]),
    ("p23-force-and", "P23", [(GB, "    if changed or force_write:\n", "    if changed and force_write:\n")]),
    ("p23-no-force", "P23", [(GB, "    if changed or force_write:\n", "    if changed:\n")]),
    ("p23-return", "P23", [(GB, "        return True\n\n    return False\n\n\nclass ClassGen", "        return force_write\n\n    return False\n\n\nclass ClassGen")]),
    ("p23-encoding", "P23", [(GB, "with open(filename, \"w\", encoding=\"utf-8\") as outfile:", "with open(filename, \"w\") as outfile:")]),
    ("p23-list-early", "P23", [(CPG, "        self._write_all_collections_header()\n        if not self.dryrun:\n            self._write_cmake_lists_file()\n", "        if not self.dryrun:\n            self._write_cmake_lists_file()\n        self._write_all_collections_header()\n")]),
    ("p23-list-dry", "P23", [(CPG, "        if not self.dryrun:\n            self._write_cmake_lists_file()\n", "        self._write_cmake_lists_file()\n")]),
    ("p23-list-not-forced", "P23", [(CPG, "            \"\\n\".join(full_contents),\n            self.any_changes,\n", "            \"\\n\".join(full_contents),\n")]),
    ("p23-list-forced", "P23", [(CPG, "            \"\\n\".join(full_contents),\n            self.any_changes,\n", "            \"\\n\".join(full_contents),\n            True,\n")]),
    ("p23-time", "P23", [(CPG, "            \"datamodel_version\": self.datamodel_version,\n        }\n", "            \"datamodel_version\": self.datamodel_version or __import__(\"time\").localtime()[:3],\n        }\n")]),
    ("p23-platform", "P23", [(GB, "        self.incfolder = self.datamodel.options[\"includeSubfolder\"]\n", "        self.incfolder = self.datamodel.options[\"includeSubfolder\"]\n        if self.incfolder == \"cwd/\":\n            self.incfolder = os.getcwd()\n")]),
    ("p23-hash", "P23", [(CPG, "                    \"includes\": collection_files,\n", "                    \"includes\": sorted(collection_files, key=hash),\n")]),
    ("p23-env", "P23", [(GB, "        data[\"incfolder\"] = self.incfolder\n", "        data[\"incfolder\"] = os.environ.get(\"PODIO_INCFOLDER\", self.incfolder)\n")]),
    ("p23-listdir", "P23", [(CPG, "        src_files = (f for f in self.generated_files if f.endswith(\".cc\"))\n", "        src_files = [f for f in os.listdir(os.path.join(self.install_dir, \"src\")) if f.endswith(\".cc\")]\n")]),
    ("p23-path", "P23", [(CPG, "                list_cont.append(f\"  {os.path.join(target_folder, fname)}\")\n", "                list_cont.append(f\"  {full_file}\")\n")]),
    ("p23-no-copy", "P23", [(GB, "        datatype = deepcopy(datatype)\n", "")]),
    ("p23-first-link", "P23", [(GB, "            proc_link = self._process_link(name, link)\n", "            if datamodel[\"links\"]:\n                continue\n            proc_link = self._process_link(name, link)\n")]),
    ("p23-skip-known", "P23", [(GB, "        for filename, template in self._get_filenames_templates(\n            template_base, data[\"class\"].bare_type\n        ):\n            self._write_file", "        for filename, template in self._get_filenames_templates(\n            template_base, data[\"class\"].bare_type\n        ):\n            if filename in _SEEN:\n                continue\n            _SEEN.append(filename)\n            self._write_file"), (GB, "def write_file_if_changed(", "_SEEN = []\n\n\ndef write_file_if_changed(")]),
    ("p23-default-list", "P23", [(CPG, "    def _sort_includes(self, includes):\n", "    def _sort_includes(self, includes, seen=[]):\n"), (CPG, "        package_includes.sort()\n", "        seen.extend(package_includes)\n        package_includes = sorted(seen)\n")]),
    ("p23-own-open", "P23", [(CPG, "        write_file_if_changed(\n            f\"{self.install_dir}/podio_generated_files.cmake\",\n            \"\\n\".join(full_contents),\n            self.any_changes,\n        )\n", "        with open(f\"{self.install_dir}/podio_generated_files.cmake\", \"w\", encoding=\"utf-8\") as f:\n            f.write(\"\\n\".join(full_contents))\n")]),
    ("p23-remove-first", "P23", [(GB, "            changed = write_file_if_changed(fullname, content)\n", "            if os.path.islink(fullname):\n                os.remove(fullname)\n            changed = write_file_if_changed(fullname, content)\n")]),
    ("p23-jl-folder", "P23", [(GB, "        if name.endswith(\"h\") or name.endswith(\"jl\"):\n", "        if name.endswith(\"h\"):\n")]),
    ("p23-id-sort", "P23", [(CPG, "        return [r for r in iorules if r is not None]\n", "        return sorted((r for r in iorules if r is not None), key=id)\n")]),
    ("p23-iorule-set", "P23", [(CPG, "        return [r for r in iorules if r is not None]\n", "        return list({r.code: r for r in set(iorules) if r is not None}.values())\n")]),
]
BENIGN += [
    ("ok-p23-sorted", "P23", [(CPG, "        package_includes.sort()\n        podio_includes.sort()\n        stl_includes.sort()\n        upstream_includes.sort()\n        return package_includes + upstream_includes + podio_includes + stl_includes\n", "        return [\n            inc\n            for group in (package_includes, upstream_includes, podio_includes, stl_includes)\n            for inc in sorted(group)\n        ]\n")]),
    ("ok-p23-presorted", "P23", [(CPG, "        for include in (inc.strip() for inc in includes if inc.strip()):\n", "        for include in sorted(inc.strip() for inc in includes if inc.strip()):\n"), (CPG, "        package_includes.sort()\n        podio_includes.sort()\n        stl_includes.sort()\n        upstream_includes.sort()\n", "")]),
    ("ok-p23-fromkeys", "P23", [(JG, "        params = set()\n        for relation in datatype[\"OneToManyRelations\"] + datatype[\"OneToOneRelations\"]:\n            if not relation.is_builtin:\n                params.add((relation.bare_type, relation.full_type))\n        return list(params)\n", "        relations = datatype[\"OneToManyRelations\"] + datatype[\"OneToOneRelations\"]\n        return list({(r.bare_type, r.full_type): None for r in relations if not r.is_builtin})\n")]),
    ("ok-p23-ready", "P23", [(JG, "            ready = {component for component, deps in dependencies.items() if not deps}\n", "            ready = [component for component, deps in dependencies.items() if not deps]\n"), (JG, "                deps -= ready\n", "                deps.difference_update(ready)\n"), (JG, "for component in sorted(ready):", "for component in ready:")]),
    ("ok-p23-dropped", "P23", [(CPG, "        current_components = set(self.datamodel.components.keys())\n        previous_components = set(self.old_components.keys())\n        dropped_components = previous_components.difference(current_components)\n\n        for name in sorted(dropped_components):\n", "        for name in self.old_components:\n            if name in self.datamodel.components:\n                continue\n")]),
    ("ok-p23-compare", "P23", [(PSE, "        added = set(keys1).difference(keys2)\n        dropped = set(keys2).difference(keys1)\n        kept = set(keys1).intersection(keys2)\n        return sorted(added), sorted(dropped), sorted(kept)\n", "        added = [k for k in keys1 if k not in keys2]\n        dropped = [k for k in keys2 if k not in keys1]\n        kept = [k for k in keys1 if k in keys2]\n        return added, dropped, kept\n")]),
    ("ok-p23-write", "P23", [(GB, "    if changed or force_write:\n", "    if not changed and not force_write:\n        return False\n\n    if True:\n")]),
    ("ok-p23-write-early", "P23", [(GB, "            existing_content = infile.read()\n            changed = existing_content != content\n    except FileNotFoundError:\n        changed = True\n\n    if changed or force_write:\n", "            up_to_date = infile.read() == content\n    except FileNotFoundError:\n        up_to_date = False\n\n    write = force_write or not up_to_date\n    if write:\n")]),
    ("ok-p23-exists", "P23", [(GB, "    except FileNotFoundError:\n        changed = True\n", "    except OSError:\n        changed = True\n")]),
    ("ok-p23-helper", "P23", [(GB, "def write_file_if_changed(", "def _write(filename, content):\n    \"\"\"Write a file\"\"\"\n    with open(filename, \"w\", encoding=\"utf-8\") as outfile:\n        outfile.write(content)\n\n\ndef write_file_if_changed("), (GB, "        with open(filename, \"w\", encoding=\"utf-8\") as outfile:\n            outfile.write(content)\n        return True\n\n    return False\n", "        _write(filename, content)\n        return True\n\n    return False\n")]),
    ("ok-p23-changes", "P23", [(GB, "            changed = write_file_if_changed(fullname, content)\n            self.any_changes = changed or self.any_changes\n", "            if write_file_if_changed(fullname, content):\n                self.any_changes = True\n")]),
    ("ok-p23-dry", "P23", [(GB, "        if not self.dryrun:\n            self.generated_files.append(fullname)\n            if self.formatter_func is not None:\n                content = self.formatter_func(content, fullname)  # pylint: disable=not-callable\n\n            changed = write_file_if_changed(fullname, content)\n            self.any_changes = changed or self.any_changes\n", "        if self.dryrun:\n            return\n\n        self.generated_files.append(fullname)\n        if self.formatter_func:\n            content = self.formatter_func(content, fullname)\n\n        self.any_changes |= write_file_if_changed(fullname, content)\n")]),
    ("ok-p23-folder", "P23", [(GB, "        if name.endswith(\"h\") or name.endswith(\"jl\"):\n            fullname = os.path.join(self.install_dir, self.package_name, name)\n        else:\n            fullname = os.path.join(self.install_dir, \"src\", name)\n", "        sub_dir = self.package_name if name.endswith((\"h\", \"jl\")) else \"src\"\n        fullname = os.path.join(self.install_dir, sub_dir, name)\n")]),
    ("ok-p23-list", "P23", [(CPG, "            list_cont = []\n\n            list_cont.append(f\"# {comment}\")\n            list_cont.append(f\"SET({name}\")\n            for full_file in files:\n                fname = os.path.basename(full_file)\n                list_cont.append(f\"  {os.path.join(target_folder, fname)}\")\n\n            list_cont.append(\")\")\n", "            list_cont = [f\"# {comment}\", f\"SET({name}\"]\n            list_cont += [\n                \"  \" + os.path.join(target_folder, os.path.basename(full_file)) for full_file in files\n            ]\n            list_cont += [\")\"]\n")]),
    ("ok-p23-list-sorted", "P23", [(CPG, "        header_files = list(f for f in self.generated_files if f.endswith(\".h\"))\n", "        headers = [f for f in self.generated_files if f.endswith(\".h\")]\n"), (CPG, "        header_files.sort(key=lambda f: (0 if \"Collection.h\" in f else 1, f))\n", "        header_files = sorted(headers, key=lambda f: (\"Collection.h\" not in f, f))\n")]),
    ("ok-p23-process", "P23", [(GB, "            comp = self._process_component(name, component)\n            if comp is not None:\n                datamodel[\"components\"].append(comp)\n", "            if (comp := self._process_component(name, component)) is None:\n                continue\n            datamodel[\"components\"].append(comp)\n")]),
    ("ok-p23-copy", "P23", [(GB, "        interface = deepcopy(interface)\n        interface[\"class\"] = DataType(name)\n\n        return self.do_process_interface(name, interface)\n", "        processed = deepcopy(interface)\n        processed[\"class\"] = DataType(name)\n        return self.do_process_interface(name, processed)\n")]),
    ("ok-p23-early-list", "P23", [(CPG, "        if not self.dryrun:\n            self._write_cmake_lists_file()\n", "        if self.dryrun:\n            return\n        self._write_cmake_lists_file()\n")]),
    ("ok-p23-members", "P23", [(CPG, "        includes = set()\n        includes.update(*(m.includes for m in members))\n        for member in members:\n", "        includes = {inc for m in members for inc in m.includes}\n        for member in members:\n")]),
    ("ok-p23-invert", "P23", [(CPG, "        types_in_interfaces = defaultdict(list)\n        for name, interface in self.datamodel.interfaces.items():\n            for if_type in interface[\"Types\"]:\n                types_in_interfaces[if_type.full_type].append(name)\n", "        types_in_interfaces = {}\n        for name, interface in self.datamodel.interfaces.items():\n            for if_type in interface[\"Types\"]:\n                types_in_interfaces.setdefault(if_type.full_type, []).append(name)\n")]),
    ("ok-p23-member-includes", "P23", [(CPG, "        return self._sort_includes(includes)\n", "        return [i for i in includes if i]\n")]),
    ("ok-p23-xml", "P23", [(CPG, "        for component_name, old_versions in self.old_components.items():\n            for old_version in old_versions:\n                old_schema_components.append(\n                    {\n                        \"class\": DataType(component_name),\n                        \"version\": old_version[\"version\"],\n                    }\n                )\n", "        old_schema_components = [\n            {\"class\": DataType(name), \"version\": old[\"version\"]}\n            for name, versions in self.old_components.items()\n            for old in versions\n        ]\n")]),
]
MUTANTS += [
    ("p12-size-byte", "P12", [(RR, "    return m_size;\n", "    return static_cast<unsigned char>(m_size);\n")]),
    ("p29-size-short", "P29", [(RR, "    return m_size;\n", "    const short n = m_size;\n    return n;\n")]),
]
BENIGN += [("ok-p12-size", "P12,P29", [(RR, "    return m_size;\n", "    return std::distance(m_begin, m_end);\n")])]

GPC = "src/GenericParameters.cc"
CPC = T + "Component.cc.jinja2"
OIDH = "include/podio/ObjectID.h"
OSI = T + "macros/implementations.jinja2"
OSC = T + "macros/collections.jinja2"
ITF = T + "Interface.h.jinja2"
LTEXT = "  return os << \" id: \" << link.id() << '\\n'\n            << \" weight: \" << link.getWeight() << '\\n'\n            << \" from: \" << link.getFrom().id() << '\\n'\n            << \" to: \" << link.getTo().id() << '\\n';\n"
MUTANTS += [
    ("p31-link-swapped", "P31", [(LK, "<< \" from: \" << link.getFrom().id()", "<< \" from: \" << link.getTo().id()")]),
    ("p31-link-json-swapped", "P31", [(LK, "{\"index\", link.getFrom().getObjectID().index}", "{\"index\", link.getTo().getObjectID().index}")]),
    ("p31-link-json-both", "P31", [(LK, "link.getTo().getObjectID()", "link.getFrom().getObjectID()")]),
    ("p31-link-json-key", "P31", [(LK, "  j[\"to\"] =", "  j[\"from\"] =")]),
    ("p31-link-json-reset", "P31", [(LK, "  j = nlohmann::json{{\"weight\", link.getWeight()}};\n\n", ""), (LK, "                           {\"index\", link.getTo().getObjectID().index}};\n}", "                           {\"index\", link.getTo().getObjectID().index}};\n  j = nlohmann::json{{\"weight\", link.getWeight()}};\n}")]),
    ("p31-link-null", "P31", [(LK, "  if (!link.isAvailable()) {\n    return os << \"[not available]\";\n  }\n\n  return os", "  return os")]),
    ("p31-link-text-type", "P31", [(LK, "template <typename FromT, typename ToT, bool Mutable>\nstd::ostream& operator<<(std::ostream& os, const LinkT<FromT, ToT, Mutable>& link) {", "template <typename FromT, typename ToT>\nstd::ostream& operator<<(std::ostream& os, const Link<FromT, ToT>& link) {")]),
    ("p31-lc-flags", "P31", [(LCI, "  o.flags(old_flags);\n  return o;\n", "  return o;\n")]),
    ("p31-lc-late-flags", "P31", [(LCI, "  const auto old_flags = o.flags();\n  o << \"          id:      weight:\" << '\\n';\n", "  o << std::scientific << \"          id:      weight:\" << '\\n';\n  const auto old_flags = o.flags();\n")]),
    ("p31-lc-to", "P31", [(LCI, "    o << el.getTo().id() << std::endl;\n", "    o << el.getFrom().id() << std::endl;\n")]),
    ("p31-lc-json-subset", "P31", [(LCI, "    if (subset) {\n      j.emplace_back(elem.id());\n    } else {\n      j.emplace_back(elem);\n    }\n", "    j.emplace_back(elem.id());\n")]),
    ("p31-lc-skip-weight", "P31", [(LCI, "  for (const auto&& el : v) {\n    o << std::scientific", "  for (const auto&& el : v) {\n    if (el.getWeight() == 0) {\n      continue;\n    }\n    o << std::scientific")]),
    ("p31-lc-print-other", "P31", [(LCI, "    os << *this;\n    if (flush) {", "    std::cout << *this;\n    if (flush) {")]),
    ("p31-ud-first", "P31", [(UD, "      for (size_t i = 1; i < _vec.size(); ++i) {", "      for (size_t i = 1; i < _vec.size() - 1; ++i) {")]),
    ("p31-ud-second", "P31", [(UD, "      for (size_t i = 1; i < _vec.size(); ++i) {", "      for (size_t i = 2; i < _vec.size(); ++i) {")]),
    ("p31-ud-cap", "P31", [(UD, "      for (size_t i = 1; i < _vec.size(); ++i) {", "      for (size_t i = 1; i < std::min<size_t>(_vec.size(), 100); ++i) {")]),
    ("p31-gp-flags", "P31", [(GPC, "  os.flags(osflags);\n", "")]),
    ("p31-gp-map", "P31", [(GPC, "  printMap(getMap<double>(), os);\n", "  printMap(getMap<float>(), os);\n")]),
    ("p31-gp-empty", "P31", [(GPC, "  for (const auto& [key, value] : map) {\n", "  for (const auto& [key, value] : map) {\n    if (value.size() > 1) {\n      continue;\n    }\n")]),
    ("p31-gp-vector", "P31", [(GPC, "  if (!values.empty()) {\n    os << values[0];", "  if (values.size() > 1) {\n    os << values[0];")]),
    ("p31-gp-noflush", "P31", [(GPC, "  if (flush) {\n    os.flush();\n  }\n}\n\n} // namespace podio", "  if (!flush) {\n    os.flush();\n  }\n}\n\n} // namespace podio")]),
    ("p31-array-size", "P31", [(OSI, "  for (size_t i = 0; i < {{ member.array_size }}; ++i) {", "  for (size_t i = 0; i < {{ member.array_size }} - 1; ++i) {")]),
    ("p31-array-dup", "P31", [(OSI, "()[i] << \"|\";", "()[0] << \"|\";")]),
    ("p31-rel-full", "P31", [(OSI, "{% if type == relation.bare_type %}\n    o << value.{{ relation.getter_name(get_syntax) }}(i).id() << \" \";\n{% else %}", "{% if type == relation.bare_type %}\n    o << value.{{ relation.getter_name(get_syntax) }}(i) << \" \";\n{% else %}")]),
    ("p31-one-full", "P31", [(OSI, "  o << \" {{ relation.name }} : \" << value.{{ relation.getter_name(get_syntax) }}().id() << '\\n';", "  o << \" {{ relation.name }} : \" << value.id() << '\\n';")]),
    ("p31-rel-first", "P31", [(OSI, "  for (unsigned i = 0; i < value.{{ relation.name }}_size(); ++i) {", "  for (unsigned i = 1; i < value.{{ relation.name }}_size(); ++i) {")]),
    ("p31-vec-lost", "P31", [(T + "Object.cc.jinja2", "                           OneToOneRelations, OneToManyRelations + VectorMembers,\n", "                           OneToOneRelations, OneToManyRelations,\n")]),
    ("p31-json-vec-lost", "P31", [(OSI, "{% for member in vector_members %}\n    {{ comma() }}{\"{{ member.name }}\", value.{{ member.getter_name(get_syntax) }}()}\n{% endfor %}\n", "")]),
    ("p31-json-one-clear", "P31", [(OSI, "    j[\"{{ relation.name }}\"] = nlohmann::json{value.{{ relation.getter_name(get_syntax) }}().id()};", "    j[\"{{ relation.name }}\"] = nlohmann::json{value.id()};")]),
    ("p31-json-many-name", "P31", [(OSI, "    j[\"{{ relation.name }}\"].emplace_back(v.id());", "    j[\"{{ relation.bare_type }}\"].emplace_back(v.id());")]),
    ("p31-json-many-null", "P31", [(OSI, "  j[\"{{ relation.name }}\"] = nlohmann::json::array();\n", "")]),
    ("p31-table-array", "P31", [(CG, "            if member.is_array:\n                continue\n            header = {\"name\": member.name}", "            header = {\"name\": member.name}"), ]),
    ("p31-table-sorted", "P31", [(CG, "            header_contents.append(header)\n", "            header_contents.insert(0, header)\n")]),
    ("p31-coll-one", "P31", [(OSC, "    o << el.{{ relation.getter_name(get_syntax) }}().id() << std::endl;", "    o << el.id() << std::endl;")]),
    ("p31-coll-size", "P31", [(OSC, "    for (unsigned j = 0, N = el.{{ member.name }}_size(); j < N; ++j) {", "    for (unsigned j = 0, N = v.size(); j < N; ++j) {")]),
    ("p31-coll-json-all", "P31", [(CCJ, "    if (subset) {\n      j.emplace_back(elem.id());", "    if (!subset) {\n      j.emplace_back(elem.id());")]),
    ("p31-coll-json-array", "P31", [(CCJ, "  j = nlohmann::json::array();\n  const auto subset", "  const auto subset")]),
    ("p31-comp-array", "P31", [(CPC, "    o << value.{{ member.name }}[i] << \"|\";", "    o << value.{{ member.name }}[0] << \"|\";")]),
    ("p31-comp-json", "P31", [(CPC, "  {{ comma() }}{\"{{ member.name }}\", value.{{ member.name }}}\n", "{% if not member.is_array %}\n  {{ comma() }}{\"{{ member.name }}\", value.{{ member.name }}}\n{% endif %}\n")]),
    ("p31-if-print", "P31", [(ITF, "    value.m_self->print(os);\n", "    if (value.isAvailable()) {\n      value.m_self->print(std::cout);\n    }\n")]),
]
BENIGN += [
    ("ok-p31-link-text", "P31", [(LK, LTEXT, "  os << \" id: \" << link.id() << '\\n';\n  os << \" weight: \" << link.getWeight() << std::endl;\n  const auto from = link.getFrom();\n  os << \" from: \" << from.id() << '\\n';\n  const auto to = link.getTo().getObjectID();\n  os << \" to: \" << to << \"\\n\";\n  return os;\n")]),
    ("ok-p31-link-helper", "P31", [(LK, LTEXT, "  detail::printField(os, \"id\", link.id());\n  detail::printField(os, \"weight\", link.getWeight());\n  detail::printField(os, \"from\", link.getFrom().id());\n  detail::printField(os, \"to\", link.getTo().id());\n  return os;\n"), (LK, "template <typename FromT, typename ToT, bool Mutable>\nstd::ostream& operator<<", "namespace detail {\n  template <typename T>\n  void printField(std::ostream& os, const char* name, const T& value) {\n    os << ' ' << name << \": \" << value << '\\n';\n  }\n} // namespace detail\n\ntemplate <typename FromT, typename ToT, bool Mutable>\nstd::ostream& operator<<")]),
    ("ok-p31-link-json", "P31", [(LK, "  j[\"from\"] = nlohmann::json{{\"collectionID\", link.getFrom().getObjectID().collectionID},\n                             {\"index\", link.getFrom().getObjectID().index}};\n", "  const auto fromID = link.getFrom().getObjectID();\n  j[\"from\"] = nlohmann::json{{\"collectionID\", fromID.collectionID}, {\"index\", fromID.index}};\n")]),
    ("ok-p31-link-json-id", "P31", [(LK, "  j[\"from\"] = nlohmann::json{{\"collectionID\", link.getFrom().getObjectID().collectionID},\n                             {\"index\", link.getFrom().getObjectID().index}};\n", "  j[\"from\"] = link.getFrom().id();\n")]),
    ("ok-p31-link-json-lambda", "P31", [(LK, "  j[\"from\"] = nlohmann::json{{\"collectionID\", link.getFrom().getObjectID().collectionID},\n                             {\"index\", link.getFrom().getObjectID().index}};\n", "  const auto idJson = [](const auto& id) {\n    return nlohmann::json{{\"collectionID\", id.collectionID}, {\"index\", id.index}};\n  };\n  j[\"from\"] = idJson(link.getFrom().getObjectID());\n")]),
    ("ok-p31-link-json-init", "P31", [(LK, "  j = nlohmann::json{{\"weight\", link.getWeight()}};\n", "  j = nlohmann::json::object();\n  j[\"weight\"] = link.getWeight();\n")]),
    ("ok-p31-lc-loop", "P31", [(LCI, "  for (const auto&& el : v) {\n    o << std::scientific", "  for (auto it = v.begin(); it != v.end(); ++it) {\n    const auto el = *it;\n    o << std::scientific")]),
    ("ok-p31-lc-index", "P31", [(LCI, "  for (const auto&& el : v) {\n    o << std::scientific", "  for (size_t i = 0; i < v.size(); ++i) {\n    const auto el = v[i];\n    o << std::scientific")]),
    ("ok-p31-lc-json", "P31", [(LCI, "    if (subset) {\n      j.emplace_back(elem.id());\n    } else {\n      j.emplace_back(elem);\n    }\n", "    if (!subset) {\n      j.push_back(elem);\n      continue;\n    }\n    j.push_back(elem.getObjectID());\n")]),
    ("ok-p31-ud", "P31", [(UD, "    os << \"[\";\n    if (!_vec.empty()) {\n      os << _vec[0];\n      for (size_t i = 1; i < _vec.size(); ++i) {\n        os << \", \" << _vec[i];\n      }\n    }\n", "    os << \"[\";\n    for (size_t i = 0; i < _vec.size(); ++i) {\n      if (i != 0) {\n        os << \", \";\n      }\n      os << _vec[i];\n    }\n")]),
    ("ok-p31-ud-sep", "P31", [(UD, "    os << \"[\";\n    if (!_vec.empty()) {\n      os << _vec[0];\n      for (size_t i = 1; i < _vec.size(); ++i) {\n        os << \", \" << _vec[i];\n      }\n    }\n", "    os << \"[\";\n    const char* sep = \"\";\n    for (const auto& value : _vec) {\n      os << sep << value;\n      sep = \", \";\n    }\n")]),
    ("ok-p31-gp", "P31", [(GPC, "  for (const auto& [key, value] : map) {\n    os << std::left << std::setw(30) << key << value << '\\n';\n  }\n", "  for (auto it = map.begin(); it != map.end(); ++it) {\n    os << std::left << std::setw(30) << it->first;\n    os << it->second << '\\n';\n  }\n")]),
    ("ok-p31-gp-vector", "P31", [(GPC, "  if (!values.empty()) {\n    os << values[0];\n    for (size_t i = 1; i < values.size(); ++i) {\n      os << \", \" << values[i];\n    }\n  }\n", "  bool first = true;\n  for (const auto& v : values) {\n    if (!first) {\n      os << \", \";\n    }\n    first = false;\n    os << v;\n  }\n")]),
    ("ok-p31-array", "P31", [(OSI, "  for (size_t i = 0; i < {{ member.array_size }}; ++i) {\n    o << value.{{ member.getter_name(get_syntax) }}()[i] << \"|\";\n", "  for (const auto& v : value.{{ member.getter_name(get_syntax) }}()) {\n    o << v << \"|\";\n")]),
    ("ok-p31-rel-range", "P31", [(OSI, "  for (unsigned i = 0; i < value.{{ relation.name }}_size(); ++i) {\n{% if type == relation.bare_type %}\n    o << value.{{ relation.getter_name(get_syntax) }}(i).id() << \" \";\n{% else %}\n    o << value.{{ relation.getter_name(get_syntax) }}(i) << \" \";\n", "  for (const auto& r : value.{{ relation.getter_name(get_syntax) }}()) {\n{% if type == relation.bare_type %}\n    o << r.id() << \" \";\n{% else %}\n    o << r << \" \";\n")]),
    ("ok-p31-json-many", "P31", [(OSI, "  j[\"{{ relation.name }}\"] = nlohmann::json::array();\n  for (const auto& v : value.{{ relation.getter_name(get_syntax) }}()) {\n    j[\"{{ relation.name }}\"].emplace_back(v.id());\n  }\n", "  {\n    auto ids = nlohmann::json::array();\n    for (const auto& v : value.{{ relation.getter_name(get_syntax) }}()) {\n      ids.push_back(v.id());\n    }\n    j[\"{{ relation.name }}\"] = std::move(ids);\n  }\n")]),
    ("ok-p31-json-ref", "P31", [(OSI, "  j[\"{{ relation.name }}\"] = nlohmann::json::array();\n  for (const auto& v : value.{{ relation.getter_name(get_syntax) }}()) {\n    j[\"{{ relation.name }}\"].emplace_back(v.id());\n  }\n", "  auto& {{ relation.name }}_ids = j[\"{{ relation.name }}\"] = nlohmann::json::array();\n  for (const auto& v : value.{{ relation.getter_name(get_syntax) }}()) {\n    {{ relation.name }}_ids.emplace_back(v.id());\n  }\n")]),
    ("ok-p31-table", "P31", [(CG, "            if member.is_array:\n                continue\n            header = {\"name\": member.name}", "            header = {\"name\": member.name}"), (CG, "            header_contents.append(header)\n", "            if not member.is_array:\n                header_contents.append(header)\n")]),
    ("ok-p31-comp", "P31", [(CPC, "  for (int i = 0; i < {{ member.array_size }}; ++i) {\n    o << value.{{ member.name }}[i] << \"|\";\n", "  for (const auto& v : value.{{ member.name }}) {\n    o << v << \"|\";\n")]),
    ("ok-p31-if", "P31", [(ITF, "    value.m_self->print(os);\n    return os;\n", "    auto& self = *value.m_self;\n    self.print(os);\n    return os;\n")]),
]

MUTANTS += [
    ("p31-oid-flags", "P31", [(OIDH, "  os.flags(oldFlags);\n  return os", "  os << std::dec;\n  return os")]),
    ("p31-oid-swap", "P31", [(OIDH, "{\"index\", id.index}};", "{\"index\", id.collectionID}};")]),
    ("p31-oid-index", "P31", [(OIDH, "return os << \"|\" << id.index;", "return os << \"|\" << id.collectionID;")]),
    ("p31-oid-noindex", "P31", [(OIDH, "  return os << \"|\" << id.index;", "  if (id.index >= 0) {\n    os << \"|\" << id.index;\n  }\n  return os;")]),
    ("p31-ud-middle", "P31", [(UD, "        os << \", \" << _vec[i];\n", "        if (_vec.size() > 1000 && i >= 500 && i < _vec.size() - 500) {\n          continue;\n        }\n        os << \", \" << _vec[i];\n")]),
    ("p31-gp-wrap", "P31", [("src/GenericParameters.cc", "    for (size_t i = 1; i < values.size(); ++i) {\n      os << \", \"", "    for (unsigned char i = 1; i != static_cast<unsigned char>(values.size()); ++i) {\n      os << \", \"")]),
]
BENIGN += [
    ("ok-p31-oid", "P31", [(OIDH, "  const auto oldFlags = os.flags();\n  os << std::hex << std::setw(8) << id.collectionID;\n  os.flags(oldFlags);\n  return os << \"|\" << id.index;\n", "  const auto flags = os.setf(std::ios::hex, std::ios::basefield);\n  os.width(8);\n  os << id.collectionID << '|';\n  os.flags(flags);\n  os << id.index;\n  return os;\n")]),
    ("ok-p31-oid-json", "P31", [(OIDH, "  j = nlohmann::json{{\"collectionID\", id.collectionID}, {\"index\", id.index}};", "  j[\"index\"] = id.index;\n  j[\"collectionID\"] = id.collectionID;")]),
]
