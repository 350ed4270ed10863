From c9366fcabd697b6547361e3b45bed1d06c4014b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 01/78] fix: serializeSubstring wrote only the length, and its
 range check overflowed

---
 src/misc/serializeHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/serializeHelper.cpp b/src/misc/serializeHelper.cpp
index 822ddec..06f471d 100644
--- a/src/misc/serializeHelper.cpp
+++ b/src/misc/serializeHelper.cpp
@@ -83,10 +83,10 @@ namespace epics {
                 offset = 0;
             else*/ if(offset>value.length()) offset = value.length();
 
-            if(offset+count>value.length()) count = value.length()-offset;
+            if(count>value.length()-offset) count = value.length()-offset;
 
             SerializeHelper::writeSize(count, buffer, flusher);
-            /*if (count<=0)*/ return;
+            if (count<=0) return;
             std::size_t i = 0;
             while(true) {
                 std::size_t maxToWrite = min(count-i, buffer->getRemaining());
-- 
2.43.0


From 6e5c2f1362bae68166a7a4a98747562efe2cfb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 02/78] fix: serializing a range of a structure/union array
 past its end read out of bounds

---
 src/factory/PVStructureArray.cpp | 4 ++--
 src/factory/PVUnionArray.cpp     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index 66577b5..b179277 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -195,10 +195,10 @@ void PVStructureArray::serialize(ByteBuffer *pbuffer,
     ArrayConstPtr array = this->getArray();
     if (array->getArraySizeType() != Array::fixed)
         SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
-    else if (count != array->getMaximumCapacity())
+    else if (temp.size() != array->getMaximumCapacity())
         throw std::length_error("fixed array cannot be partially serialized");
 
-    for(size_t i = 0; i<count; i++) {
+    for(size_t i = 0; i<temp.size(); i++) {
         if(pbuffer->getRemaining()<1)
             pflusher->flushSerializeBuffer();
 
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index 151bc5b..169bd61 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -194,10 +194,10 @@ void PVUnionArray::serialize(ByteBuffer *pbuffer,
     ArrayConstPtr array = this->getArray();
     if (array->getArraySizeType() != Array::fixed)
         SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
-    else if (count != array->getMaximumCapacity())
+    else if (temp.size() != array->getMaximumCapacity())
         throw std::length_error("fixed array cannot be partially serialized");
 
-    for(size_t i = 0; i<count; i++) {
+    for(size_t i = 0; i<temp.size(); i++) {
         if(pbuffer->getRemaining()<1)
             pflusher->flushSerializeBuffer();
 
-- 
2.43.0


From 641682f13f63f89b816190f4af6d2872b4a10a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 03/78] fix: setLength of a structure/union array to its
 current or a refused length emptied it

---
 src/factory/PVStructureArray.cpp | 8 ++++----
 src/factory/PVUnionArray.cpp     | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index b179277..2aaf199 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -123,14 +123,14 @@ void PVStructureArray::setLength(size_t length)
 {
     if(this->isImmutable())
         THROW_EXCEPTION2(std::logic_error, "immutable");
-    const_svector value;
-    swap(value);
-
-    if (length == value.size())
+    if (length == getLength())
         return;
 
     checkLength(length);
 
+    const_svector value;
+    swap(value);
+
     if (length < value.size()) {
         value.slice(0, length);
     } else {
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index 169bd61..c2c1bc0 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -123,13 +123,14 @@ void PVUnionArray::setLength(size_t length)
 {
     if(this->isImmutable())
         THROW_EXCEPTION2(std::logic_error, "immutable");
-    const_svector value;
-    swap(value);
-    if (length == value.size())
+    if (length == getLength())
         return;
 
     checkLength(length);
 
+    const_svector value;
+    swap(value);
+
     if (length < value.size()) {
         value.slice(0, length);
     } else {
-- 
2.43.0


From 1841cbb5a5e03a30cd31c5e44d64b52b6a52bebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 04/78] fix: remove from a structure/union array accepted
 ranges whose end overflows

---
 src/factory/PVStructureArray.cpp | 2 +-
 src/factory/PVUnionArray.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index 2aaf199..56c9ce9 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -46,7 +46,7 @@ bool PVStructureArray::remove(size_t offset,size_t number)
 {
     if (number==0)
         return true;
-    else if (offset+number>getLength())
+    else if (number>getLength() || offset>getLength()-number)
         return false;
     else if (getArray()->getArraySizeType() == Array::fixed)
         return false;
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index c2c1bc0..62aef68 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -46,7 +46,7 @@ bool PVUnionArray::remove(size_t offset,size_t number)
 {
     if (number==0)
         return true;
-    else if (offset+number>getLength())
+    else if (number>getLength() || offset>getLength()-number)
         return false;
     else if (getArray()->getArraySizeType() == Array::fixed)
         return false;
-- 
2.43.0


From 7c6be8cc8e6dcd13b4011d146d588f548728f207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 05/78] fix: partial serialization of a fixed size string array
 was not refused

---
 src/factory/PVDataCreateFactory.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 6826e62..8dd3797 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -439,9 +439,11 @@ void PVValueArray<string>::serialize(ByteBuffer *pbuffer,
     const_svector temp(value);
     temp.slice(offset, count);
 
-    // TODO if fixed count == getArray()->getMaximumCapacity()
-    if (this->getArray()->getArraySizeType() != Array::fixed)
+    ArrayConstPtr array = this->getArray();
+    if (array->getArraySizeType() != Array::fixed)
         SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
+    else if (temp.size() != array->getMaximumCapacity())
+        throw std::length_error("fixed array cannot be partially serialized");
 
     const string * pvalue = temp.data();
     for(size_t i = 0; i<temp.size(); i++) {
-- 
2.43.0


From 0610b37876b53691c97383a76c5bc7d726b96a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 06/78] fix: array data received by direct deserialization was
 dropped

---
 src/factory/PVDataCreateFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 8dd3797..15cf71c 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -330,6 +330,7 @@ void PVValueArray<T>::deserialize(ByteBuffer *pbuffer,
     if (!pbuffer->reverse<T>())
         if (pcontrol->directDeserialize(pbuffer, (char*)cur, size, sizeof(T)))
         {
+        value = freeze(nextvalue);
         // inform about the change?
         PVField::postPut();
         return;
-- 
2.43.0


From a53150a22db5f0b041765c465bd5413e78dde8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 07/78] fix: absolute ByteBuffer get/put checked only the
 index, not that the value fits below the limit

---
 src/misc/pv/byteBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/pv/byteBuffer.h b/src/misc/pv/byteBuffer.h
index 321f35d..3b82ec5 100644
--- a/src/misc/pv/byteBuffer.h
+++ b/src/misc/pv/byteBuffer.h
@@ -745,7 +745,7 @@ private:
     template<typename T>
     inline void ByteBuffer::put(std::size_t index, T value) const
     {
-        assert(_buffer+index<=_limit);
+        assert(index<=std::size_t(_limit-_buffer) && sizeof(T)<=std::size_t(_limit-_buffer)-index);
 
         if(reverse<T>())
             value = swap<T>(value);
@@ -774,7 +774,7 @@ private:
     template<typename T>
     inline T ByteBuffer::get(std::size_t index) const
     {
-        assert(_buffer+index<=_limit);
+        assert(index<=std::size_t(_limit-_buffer) && sizeof(T)<=std::size_t(_limit-_buffer)-index);
 
         T value = detail::load_unaligned<T>(_buffer + index);
 
-- 
2.43.0


From ae34a1282715f7d5a85c7ef797d9517884e52335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 08/78] fix: types differing only in a string or array bound
 compared equal

---
 src/factory/Compare.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/factory/Compare.cpp b/src/factory/Compare.cpp
index 1e53608..ff60b31 100644
--- a/src/factory/Compare.cpp
+++ b/src/factory/Compare.cpp
@@ -69,14 +69,22 @@ bool compare(const Scalar& a, const Scalar& b)
 {
     if(&a==&b)
         return true;
-    return a.getScalarType()==b.getScalarType();
+    if(a.getScalarType()!=b.getScalarType())
+        return false;
+    const BoundedString *A=dynamic_cast<const BoundedString*>(&a);
+    const BoundedString *B=dynamic_cast<const BoundedString*>(&b);
+    if(!A || !B)
+        return !A && !B;
+    return compare(*A, *B);
 }
 
 bool compare(const ScalarArray& a, const ScalarArray& b)
 {
     if(&a==&b)
         return true;
-    return a.getElementType()==b.getElementType();
+    return a.getElementType()==b.getElementType()
+        && a.getArraySizeType()==b.getArraySizeType()
+        && a.getMaximumCapacity()==b.getMaximumCapacity();
 }
 
 bool compare(const Structure& a, const Structure& b)
-- 
2.43.0


From a4be118d0f71b6c12ad10c2ce76c83523ee7740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 09/78] fix: comparing a non-empty with an empty variant union
 dereferenced null

---
 src/factory/Compare.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/factory/Compare.cpp b/src/factory/Compare.cpp
index ff60b31..c959413 100644
--- a/src/factory/Compare.cpp
+++ b/src/factory/Compare.cpp
@@ -280,10 +280,11 @@ bool compareField(const PVUnion* left, const PVUnion* right)
     if (ls->isVariant())
     {
         const PVField::const_shared_pointer& lval = left->get();
-        if (lval.get() == 0)
-            return right->get().get() == 0;
+        const PVField::const_shared_pointer& rval = right->get();
+        if (lval.get() == 0 || rval.get() == 0)
+            return lval.get() == rval.get();
         else
-            return *(lval.get()) == *(right->get().get());
+            return *(lval.get()) == *(rval.get());
     }
     else
     {
-- 
2.43.0


From a4541b2348c29e2e8528be40e385b0c45d3c6077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 10/78] fix: structure/union array type with an element type
 that is missing or of another kind was not refused

---
 src/factory/FieldCreateFactory.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index 6c5f9b0..72b4e43 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -418,6 +418,8 @@ void FixedScalarArray::serialize(ByteBuffer *buffer, SerializableControl *contro
 StructureArray::StructureArray(StructureConstPtr const & structure)
 : Array(structureArray),pstructure(structure)
 {
+    if(!pstructure)
+        THROW_EXCEPTION2(std::invalid_argument, "Can't construct StructureArray, structure is NULL");
 }
 
 StructureArray::~StructureArray()
@@ -458,6 +460,8 @@ std::tr1::shared_ptr<PVValueArray<std::tr1::shared_ptr<PVStructure> > > Structur
 UnionArray::UnionArray(UnionConstPtr const & _punion)
 : Array(unionArray),punion(_punion)
 {
+    if(!punion)
+        THROW_EXCEPTION2(std::invalid_argument, "Can't construct UnionArray, union is NULL");
 }
 
 UnionArray::~UnionArray()
@@ -1561,7 +1565,8 @@ FieldConstPtr FieldCreate::deserialize(ByteBuffer* buffer, DeserializableControl
                 throw std::invalid_argument("fixed and bounded structure array not supported");
 
             // Type type = Type.structureArray;
-            StructureConstPtr elementStructure = std::tr1::static_pointer_cast<const Structure>(control->cachedDeserialize(buffer));
+            // (also refuses an element which is not a structure)
+            StructureConstPtr elementStructure = std::tr1::dynamic_pointer_cast<const Structure>(control->cachedDeserialize(buffer));
             // TODO use std::make_shared
             std::tr1::shared_ptr<Field> sp(new StructureArray(elementStructure));
             Helper::cache(this, sp);
@@ -1574,7 +1579,8 @@ FieldConstPtr FieldCreate::deserialize(ByteBuffer* buffer, DeserializableControl
                 throw std::invalid_argument("fixed and bounded structure array not supported");
 
             // Type type = Type.unionArray;
-            UnionConstPtr elementUnion = std::tr1::static_pointer_cast<const Union>(control->cachedDeserialize(buffer));
+            // (also refuses an element which is not a union)
+            UnionConstPtr elementUnion = std::tr1::dynamic_pointer_cast<const Union>(control->cachedDeserialize(buffer));
             // TODO use std::make_shared
             std::tr1::shared_ptr<Field> sp(new UnionArray(elementUnion));
             Helper::cache(this, sp);
-- 
2.43.0


From 358879b1c460c43a085a73b6eba82242bd37d02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 11/78] fix: FieldBuilder and appendFields did not refuse
 missing types and mismatched lists

---
 src/factory/FieldCreateFactory.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index 72b4e43..7771db4 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -1021,6 +1021,8 @@ FieldBuilderPtr FieldBuilder::addBoundedString(std::string const & name, std::si
 
 FieldBuilderPtr FieldBuilder::add(string const & name, FieldConstPtr const & field)
 {
+    if(!field)
+        THROW_EXCEPTION2(std::invalid_argument, "NULL field type for : "+name);
     const Field* cur = findField(name, field->getType());
     if(!cur) {
         fields.push_back(field); fieldNames.push_back(name);
@@ -1047,6 +1049,8 @@ FieldBuilderPtr FieldBuilder::addBoundedArray(string const & name, ScalarType sc
 
 FieldBuilderPtr FieldBuilder::addArray(string const & name, FieldConstPtr const & element)
 {
+    if(!element)
+        THROW_EXCEPTION2(std::invalid_argument, "NULL array element type for : "+name);
     FieldConstPtr fld;
     switch (element->getType())
     {
@@ -1421,6 +1425,8 @@ StructureConstPtr FieldCreate::appendFields(
     FieldConstPtrArray const & fields) const
 {
     validateFieldNames(fieldNames);
+    if(fieldNames.size()!=fields.size())
+        THROW_EXCEPTION2(std::invalid_argument, "Can't append fields, fieldNames.size()!=fields.size()");
     StringArray const & oldNames = structure->getFieldNames();
     FieldConstPtrArray const & oldFields = structure->getFields();
     size_t oldLen = oldNames.size();
-- 
2.43.0


From 43e673c461fe36af18b7d7a9b054f4b1d6c3ae7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 12/78] fix: cloned fields shared members with the original,
 lost their type, or crashed on an empty union

---
 src/factory/PVDataCreateFactory.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 15cf71c..c8cf5f0 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -519,9 +519,7 @@ PVFieldPtr PVDataCreate::createPVField(PVFieldPtr const & fieldToClone)
          {
              PVStructurePtr pvStructure
                    = static_pointer_cast<PVStructure>(fieldToClone);
-             StringArray const & fieldNames = pvStructure->getStructure()->getFieldNames();
-             PVFieldPtrArray const & pvFieldPtrArray = pvStructure->getPVFields();
-             return createPVStructure(fieldNames,pvFieldPtrArray);
+             return createPVStructure(pvStructure);
          }
      case structureArray:
          {
@@ -593,8 +591,7 @@ PVScalarPtr PVDataCreate::createPVScalar(ScalarType scalarType)
 
 PVScalarPtr PVDataCreate::createPVScalar(PVScalarPtr const & scalarToClone)
 {
-     ScalarType scalarType = scalarToClone->getScalar()->getScalarType();
-     PVScalarPtr pvScalar = createPVScalar(scalarType);
+     PVScalarPtr pvScalar = createPVScalar(scalarToClone->getScalar());
      pvScalar->copyUnchecked(*scalarToClone);
      return pvScalar;
 }
@@ -643,8 +640,9 @@ PVScalarArrayPtr PVDataCreate::createPVScalarArray(
         PVScalarArrayPtr const & arrayToClone)
 {
      PVScalarArrayPtr pvArray = createPVScalarArray(
-          arrayToClone->getScalarArray()->getElementType());
-     pvArray->assign(*arrayToClone.get());
+          arrayToClone->getScalarArray());
+     if(arrayToClone->getLength()!=0)
+         pvArray->assign(*arrayToClone.get());
     return pvArray;
 }
 
@@ -713,7 +711,9 @@ PVUnionPtr PVDataCreate::createPVUnion(PVUnionPtr const & unionToClone)
 {
     PVUnionPtr punion(new PVUnion(unionToClone->getUnion()));
     // set cloned value
-    punion->set(unionToClone->getSelectedIndex(), createPVField(unionToClone->get()));
+    PVFieldPtr value(unionToClone->get());
+    if(value)
+        punion->set(unionToClone->getSelectedIndex(), createPVField(value));
     return punion;
 }
 
-- 
2.43.0


From 6e3667628a115a15cb7604493b07b7bcf2b6cb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 13/78] fix: a union decoded with an invalid selector kept that
 selector

---
 src/factory/PVUnion.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/factory/PVUnion.cpp b/src/factory/PVUnion.cpp
index a52687b..40c8b74 100644
--- a/src/factory/PVUnion.cpp
+++ b/src/factory/PVUnion.cpp
@@ -158,21 +158,25 @@ void PVUnion::deserialize(ByteBuffer *pbuffer, DeserializableControl *pcontrol)
     }
     else
     {
-        int32 previousSelector = selector;
-        selector = static_cast<int32>(SerializeHelper::readSize(pbuffer, pcontrol));
-        if (selector != UNDEFINED_INDEX)
+        int32 newSelector = static_cast<int32>(SerializeHelper::readSize(pbuffer, pcontrol));
+        if (newSelector != UNDEFINED_INDEX)
         {
-            if (selector != previousSelector)
+            if (newSelector != selector)
             {
-                FieldConstPtr field = unionPtr->getField(selector);
+                // throws if out of range, leaving the present selection
+                FieldConstPtr field = unionPtr->getField(newSelector);
                 // try to reuse existing field instance
                 if (!value.get() || *value->getField() != *field)
                     value = pvDataCreate->createPVField(field);
+                selector = newSelector;
             }
             value->deserialize(pbuffer, pcontrol);
         }
         else
+        {
+            selector = UNDEFINED_INDEX;
             value.reset();
+        }
     }
 }
 
-- 
2.43.0


From a059dbd126810603542f5a938de495dd5928e795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 14/78] fix: declared bounds of strings and arrays were not
 enforced when decoding

---
 src/factory/PVDataCreateFactory.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index c8cf5f0..3536fb3 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -128,8 +128,7 @@ template<>
 void PVScalarValue<std::string>::deserialize(ByteBuffer *pbuffer,
     DeserializableControl *pflusher)
 {
-    storage.value = SerializeHelper::deserializeString(pbuffer, pflusher);
-    // TODO: check for violations of maxLength?
+    storage.store(SerializeHelper::deserializeString(pbuffer, pflusher));
 }
 
 PVString::PVString(ScalarConstPtr const & scalar)
@@ -319,6 +318,7 @@ void PVValueArray<T>::deserialize(ByteBuffer *pbuffer,
     size_t size = this->getArray()->getArraySizeType() == Array::fixed ?
                 this->getArray()->getMaximumCapacity() :
                 SerializeHelper::readSize(pbuffer, pcontrol);
+    this->checkLength(size);
 
     svector nextvalue(thaw(value));
     nextvalue.resize(size); // TODO: avoid copy of stuff we will then overwrite
@@ -413,6 +413,7 @@ void PVValueArray<string>::deserialize(ByteBuffer *pbuffer,
     size_t size = this->getArray()->getArraySizeType() == Array::fixed ?
                 this->getArray()->getMaximumCapacity() :
                 SerializeHelper::readSize(pbuffer, pcontrol);
+    this->checkLength(size);
 
     svector nextvalue(thaw(value));
 
-- 
2.43.0


From 56180934735b1e5060d475a028ab98d5768667cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:53 +0000
Subject: [PATCH 15/78] fix: a structure with a fixed size array which was
 never set could not be cloned

---
 src/factory/PVDataCreateFactory.cpp | 3 +--
 src/pv/pvData.h                     | 5 +++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 3536fb3..68fa67d 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -642,8 +642,7 @@ PVScalarArrayPtr PVDataCreate::createPVScalarArray(
 {
      PVScalarArrayPtr pvArray = createPVScalarArray(
           arrayToClone->getScalarArray());
-     if(arrayToClone->getLength()!=0)
-         pvArray->assign(*arrayToClone.get());
+     pvArray->assign(*arrayToClone.get());
     return pvArray;
 }
 
diff --git a/src/pv/pvData.h b/src/pv/pvData.h
index a33fb0e..262e6b3 100644
--- a/src/pv/pvData.h
+++ b/src/pv/pvData.h
@@ -691,6 +691,11 @@ public:
     void copyUnchecked(const PVScalarArray& from) {
         if (this==&from)
             return;
+        if (getLength()==0 && from.getLength()==0) {
+            // no elements to copy.  also when not allowed to set zero length (fixed size, never set)
+            postPut();
+            return;
+        }
         shared_vector<const void> temp;
         from._getAsVoid(temp);
         _putFromVoid(temp);
-- 
2.43.0


From 697e059852e7006b15097266f1df0e8430c2cd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 16/78] fix: status decoded with an undefined type, which read
 out of bounds when printed

---
 src/misc/status.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/misc/status.cpp b/src/misc/status.cpp
index 0edd0f3..4c86b1e 100644
--- a/src/misc/status.cpp
+++ b/src/misc/status.cpp
@@ -74,6 +74,8 @@ void Status::deserialize(ByteBuffer *buffer, DeserializableControl *flusher)
     }
     else
     {
+        if (typeCode < STATUSTYPE_OK || typeCode > STATUSTYPE_FATAL)
+            throw std::runtime_error("invalid status type encoding");
         m_statusType = (StatusType)typeCode;
         m_message = SerializeHelper::deserializeString(buffer, flusher);
         m_stackDump = SerializeHelper::deserializeString(buffer, flusher);
-- 
2.43.0


From f62b07a3e19e8eda84bf04b4ad526a9ab14d1804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 17/78] fix: a bit set whose decoding failed was left with
 trailing zero words

---
 src/misc/bitSet.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/misc/bitSet.cpp b/src/misc/bitSet.cpp
index d53aaeb..862add6 100644
--- a/src/misc/bitSet.cpp
+++ b/src/misc/bitSet.cpp
@@ -341,13 +341,16 @@ namespace epics { namespace pvData {
         uint32 bytes = static_cast<uint32>(SerializeHelper::readSize(buffer, control)); // in bytes
 
         size_t wordsInUse = (bytes + 7) / BYTES_PER_WORD;
+
+        // may throw, so before changing anything
+        if (wordsInUse != 0)
+            control->ensureData(bytes);
+
         words.resize(wordsInUse);
 
         if (wordsInUse == 0)
             return;
 
-        control->ensureData(bytes);
-
         uint32 i = 0;
         uint32 longs = bytes / 8;
         while (i < longs)
-- 
2.43.0


From 2e3c743f63fe3c608dc9ebc1b7acfd8464db94c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 18/78] fix: members numbered before they were assembled into a
 structure kept their old numbers

---
 src/factory/PVStructure.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/factory/PVStructure.cpp b/src/factory/PVStructure.cpp
index ff14b81..46fbefd 100644
--- a/src/factory/PVStructure.cpp
+++ b/src/factory/PVStructure.cpp
@@ -58,6 +58,8 @@ PVStructure::PVStructure(StructureConstPtr const & structurePtr,
     for(size_t i=0; i<numberFields; i++) {
         pvFields[i]->setParentAndName(this,fieldNames[i]);
     }
+    // the members may have been numbered while outside of this structure
+    computeOffset(this);
 }
 
 PVStructure::~PVStructure() {}
-- 
2.43.0


From 00c55991354f93eaab7bea5e966ddba5ca0e5eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 19/78] fix: shared_vector::at() accepted the index one past
 the end

---
 src/misc/pv/sharedVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 905ee5e..6648087 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -623,7 +623,7 @@ public:
     //! @throws std::out_of_range if i>=size().
     reference at(size_t i) const
     {
-        if(i>this->m_count)
+        if(i>=this->m_count)
             throw std::out_of_range("Index out of bounds");
         return (*this)[i];
     }
-- 
2.43.0


From 866a72db3c76a7fb6ad199c7acdbc76435b27de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:56 +0000
Subject: [PATCH 20/78] fix: thaw() of a shared slice pointed past the elements
 it had copied

---
 src/misc/pv/sharedVector.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 6648087..56e6f4b 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -155,11 +155,15 @@ namespace detail {
         shared_vector_base(shared_vector<const E>& O,
                            _shared_vector_thaw_tag)
             :m_sdata()
-            ,m_offset(O.m_offset)
-            ,m_count(O.m_count)
-            ,m_total(O.m_total)
+            ,m_offset(0)
+            ,m_count(0)
+            ,m_total(0)
         {
             O.make_unique();
+            // make_unique() may have moved the elements
+            m_offset = O.m_offset;
+            m_count = O.m_count;
+            m_total = O.m_total;
 #if __cplusplus >= 201103L
             m_sdata = std::move(std::tr1::const_pointer_cast<E>(O.m_sdata));
 #else
-- 
2.43.0


From fcc666bd0295f48d089f9436024ee174fa92918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:12 +0000
Subject: [PATCH 21/78] fix: shared_vector push_back()/resize() of one of its
 own elements used it after it was freed

---
 src/misc/pv/sharedVector.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 56e6f4b..6207ddd 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -501,9 +501,13 @@ public:
      */
     void resize(size_t i, param_type v) {
         size_t oldsize=this->size();
-        resize(i);
-        if(this->size()>oldsize) {
-            std::fill(begin()+oldsize, end(), v);
+        if(i<=oldsize) {
+            resize(i);
+        } else {
+            // v may be an element of this vector, which is about to be moved
+            const _E_non_const temp(v);
+            resize(i);
+            std::fill(begin()+oldsize, end(), temp);
         }
     }
 
@@ -605,8 +609,10 @@ public:
 
     void push_back(param_type v)
     {
+        // v may be an element of this vector, which is about to be moved
+        const _E_non_const temp(v);
         _push_resize();
-        back() = v;
+        back() = temp;
     }
 
     void pop_back()
-- 
2.43.0


From 3b2649c4cacc0fa30190f7246076348042e6650a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 22/78] fix: shared_vector::reserve() dropped elements of
 shared data

---
 src/misc/pv/sharedVector.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 6207ddd..29f22b0 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -432,9 +432,10 @@ public:
     void reserve(size_t i) {
         if(this->unique() && i<=this->m_total)
             return;
+        // never drops elements
         size_t new_count = this->m_count;
-        if(new_count > i)
-            new_count = i;
+        if(i < new_count)
+            i = new_count;
         _E_non_const* temp=new _E_non_const[i];
         try{
             std::copy(begin(), begin()+new_count, temp);
-- 
2.43.0


From adf2a26751d556d339053165706de1b98b8b0440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:44 +0000
Subject: [PATCH 23/78] fix: failed array conversions always blamed the element
 at index 0

---
 src/misc/typeCast.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/misc/typeCast.cpp b/src/misc/typeCast.cpp
index 8ae3688..7bb93d6 100644
--- a/src/misc/typeCast.cpp
+++ b/src/misc/typeCast.cpp
@@ -33,8 +33,9 @@ static void castVTyped(size_t count, void *draw, const void *sraw)
 
     //std::transform(src, src+count, dest, castUnsafe<TO,FROM>);
 
+    size_t i=0;
     try {
-        for(size_t i=0; i<count; i++) {
+        for(; i<count; i++) {
             dest[i] = castUnsafe<TO,FROM>(src[i]);
         }
     } catch (std::exception& ex) {
@@ -42,7 +43,7 @@ static void castVTyped(size_t count, void *draw, const void *sraw)
         if (count > 1)
         {
             std::ostringstream os;
-            os << "failed to parse element at index " << (src - (FROM*)sraw);
+            os << "failed to parse element at index " << i;
             os << ": " << ex.what();
             throw std::runtime_error(os.str());
         }
-- 
2.43.0


From f74d34654a9e2acd76b65abbb590d8617f2f0e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 24/78] fix: text with an embedded NUL was converted as if it
 ended there

---
 src/misc/pv/typeCast.h | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/misc/pv/typeCast.h b/src/misc/pv/typeCast.h
index a660cb2..3719918 100644
--- a/src/misc/pv/typeCast.h
+++ b/src/misc/pv/typeCast.h
@@ -34,17 +34,24 @@ namespace detail {
     epicsShareExtern void parseToPOD(const char*, float *out);
     epicsShareExtern void parseToPOD(const char*, double *out);
 
-    static inline void parseToPOD(const std::string& str, boolean *out) { return parseToPOD(str.c_str(), out); }
-    static inline void parseToPOD(const std::string& str, int8 *out) { return parseToPOD(str.c_str(), out); }
-    static inline void parseToPOD(const std::string& str, uint8 *out) { return parseToPOD(str.c_str(), out); }
-    static inline void parseToPOD(const std::string& str, int16_t *out) { return parseToPOD(str.c_str(), out); }
-    static inline void parseToPOD(const std::string& str, uint16_t *out) { return parseToPOD(str.c_str(), out); }
-    static inline void parseToPOD(const std::string& str, int32_t *out) { return parseToPOD(str.c_str(), out); }
-    static inline void parseToPOD(const std::string& str, uint32_t *out) { return parseToPOD(str.c_str(), out); }
-    static inline void parseToPOD(const std::string& str, int64_t *out) { return parseToPOD(str.c_str(), out); }
-    static inline void parseToPOD(const std::string& str, uint64_t *out) { return parseToPOD(str.c_str(), out); }
-    static inline void parseToPOD(const std::string& str, float *out) { return parseToPOD(str.c_str(), out); }
-    static inline void parseToPOD(const std::string& str, double *out) { return parseToPOD(str.c_str(), out); }
+    // a NUL is never part of a value, so don't stop at one
+    static inline const char* parseWhole(const std::string& str) {
+        if(str.find('\0')!=str.npos)
+            throw std::runtime_error("parseToPOD: Extraneous characters");
+        return str.c_str();
+    }
+
+    static inline void parseToPOD(const std::string& str, boolean *out) { return parseToPOD(parseWhole(str), out); }
+    static inline void parseToPOD(const std::string& str, int8 *out) { return parseToPOD(parseWhole(str), out); }
+    static inline void parseToPOD(const std::string& str, uint8 *out) { return parseToPOD(parseWhole(str), out); }
+    static inline void parseToPOD(const std::string& str, int16_t *out) { return parseToPOD(parseWhole(str), out); }
+    static inline void parseToPOD(const std::string& str, uint16_t *out) { return parseToPOD(parseWhole(str), out); }
+    static inline void parseToPOD(const std::string& str, int32_t *out) { return parseToPOD(parseWhole(str), out); }
+    static inline void parseToPOD(const std::string& str, uint32_t *out) { return parseToPOD(parseWhole(str), out); }
+    static inline void parseToPOD(const std::string& str, int64_t *out) { return parseToPOD(parseWhole(str), out); }
+    static inline void parseToPOD(const std::string& str, uint64_t *out) { return parseToPOD(parseWhole(str), out); }
+    static inline void parseToPOD(const std::string& str, float *out) { return parseToPOD(parseWhole(str), out); }
+    static inline void parseToPOD(const std::string& str, double *out) { return parseToPOD(parseWhole(str), out); }
 
     /* want to pass POD types by value,
      * and std::string by const reference
-- 
2.43.0


From e1cb66ce5a417f8bed2309dcfc1894c83f73e9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 25/78] fix: Convert::toLong() truncated to 32 bits

---
 src/pv/convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pv/convert.h b/src/pv/convert.h
index 2a4395b..1967166 100644
--- a/src/pv/convert.h
+++ b/src/pv/convert.h
@@ -167,7 +167,7 @@ public:
      * @return converted value
      * @throws std::invalid_argument if the Type is not a numeric scalar
      */
-    inline int64 toLong(PVScalarPtr const & pv) { return pv->getAs<int32>();}
+    inline int64 toLong(PVScalarPtr const & pv) { return pv->getAs<int64>();}
     /**
      * Convert a PV to a ubyte.
      * @param pv a PV
-- 
2.43.0


From 0e38cf8bcbd2a23b486dd5af0195299c9349bd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 26/78] fix: parseJSON keeps line breaks of the text it reads

---
 src/json/parsehelper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json/parsehelper.cpp b/src/json/parsehelper.cpp
index 9cc44c3..969e66b 100644
--- a/src/json/parsehelper.cpp
+++ b/src/json/parsehelper.cpp
@@ -37,6 +37,8 @@ bool yajl_parse_helper(std::istream& src,
     std::string line;
     while(std::getline(src, line)) {
         linenum++;
+        if(!src.eof())
+            line.push_back('\n'); // a token, string, or comment ends with the line
 
 #ifndef EPICS_YAJL_VERSION
         if(done) {
-- 
2.43.0


From c50b3c2d80a453736b807c0b8ccdd68991b05e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 27/78] fix: printJSON prints uint64 above the int64 maximum as
 it is

---
 src/json/jprint.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/json/jprint.cpp b/src/json/jprint.cpp
index 61b402a..f426a9f 100644
--- a/src/json/jprint.cpp
+++ b/src/json/jprint.cpp
@@ -5,6 +5,7 @@
 
 #include <vector>
 #include <sstream>
+#include <locale>
 
 #include <errlog.h>
 #include <yajl_gen.h>
@@ -107,6 +108,15 @@ void yg_string(yajl_gen handle, const std::string& s) {
     yg(yajl_gen_string(handle, (const unsigned char*)s.c_str(), s.size()));
 }
 
+// not every uint64 can be given to yajl_gen_integer()
+void yg_ulong(yajl_gen handle, pvd::uint64 v) {
+    std::ostringstream strm;
+    strm.imbue(std::locale::classic());
+    strm<<v;
+    std::string s(strm.str());
+    yg(yajl_gen_number(handle, s.c_str(), s.size()));
+}
+
 void show_field(args& A, const pvd::PVField* fld, const pvd::BitSet *mask);
 
 void show_struct(args& A, const pvd::PVStructure* fld, const pvd::BitSet *mask)
@@ -141,7 +151,7 @@ void show_field(args& A, const pvd::PVField* fld, const pvd::BitSet *mask)
         case pvd::pvBoolean: yg(yajl_gen_bool(A.handle, scalar->getAs<pvd::boolean>())); break;
         case pvd::pvDouble:
         case pvd::pvFloat: yg(yajl_gen_double(A.handle, scalar->getAs<double>())); break;
-        // case pvd::pvULong: // can't always be exactly represented...
+        case pvd::pvULong: yg_ulong(A.handle, scalar->getAs<pvd::uint64>()); break;
         default:
             yg(yajl_gen_integer(A.handle, scalar->getAs<pvd::int64>())); break;
         }
@@ -179,6 +189,13 @@ void show_field(args& A, const pvd::PVField* fld, const pvd::BitSet *mask)
             }
             break;
         }
+        case pvd::pvULong: {
+            pvd::shared_vector<const pvd::uint64> sarr(pvd::shared_vector_convert<const pvd::uint64>(arr));
+            for(size_t i=0, N=sarr.size(); i<N; i++) {
+                yg_ulong(A.handle, sarr[i]);
+            }
+            break;
+        }
         default: {
             pvd::shared_vector<const pvd::int64> sarr(pvd::shared_vector_convert<const pvd::int64>(arr));
             for(size_t i=0, N=sarr.size(); i<N; i++) {
-- 
2.43.0


From b51251182c50cd2165c2fab2331277f62d1b99e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 28/78] fix: parseJSON infers the type of an empty array
 independent of previous arrays

---
 src/json/parseany.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/json/parseany.cpp b/src/json/parseany.cpp
index e860da3..f594bf0 100644
--- a/src/json/parseany.cpp
+++ b/src/json/parseany.cpp
@@ -204,6 +204,8 @@ int jtree_start_array(void * ctx)
         if(self->state!=context::Key)
             throw std::logic_error("bare array not supported");
         self->state = context::Array;
+        // forget the element type of any previous array.  An empty array will be double[]
+        self->arr = pvd::static_shared_vector_cast<void>(pvd::shared_vector<double>());
         return 1;
     }CATCH()
 }
-- 
2.43.0


From f4c8d40e725800cd08e7cba753da9292d9e978e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 29/78] fix: parseJSON limits the nesting of text whose type is
 inferred

---
 src/json/parseany.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/json/parseany.cpp b/src/json/parseany.cpp
index f594bf0..f32a149 100644
--- a/src/json/parseany.cpp
+++ b/src/json/parseany.cpp
@@ -18,6 +18,10 @@ using pvd::yajl::size_arg;
 
 namespace {
 
+// Limit nesting of text from who knows where.
+// ValueBuilder, Structure, and PVStructure are all handled recursively
+const unsigned max_depth = 1000u;
+
 struct context {
 
     unsigned depth;
@@ -163,6 +167,8 @@ int jtree_start_map(void * ctx)
         if(self->depth>0) {
             if(self->key.empty())
                 throw std::logic_error("anonymous dict not top level?");
+            if(self->depth>=max_depth)
+                throw std::runtime_error("Too deeply nested");
             self->cur = &self->cur->addNested(self->key);
             self->key.clear();
         }
-- 
2.43.0


From 9d29c853d4944e40d58ecfa7e89748525fbbbd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 30/78] fix: parseJSON refuses values whose shape does not
 match, arrays replace existing elements

---
 src/json/parseinto.cpp | 74 +++++++++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 30 deletions(-)

diff --git a/src/json/parseinto.cpp b/src/json/parseinto.cpp
index 601fa4c..2a20c13 100644
--- a/src/json/parseinto.cpp
+++ b/src/json/parseinto.cpp
@@ -25,8 +25,13 @@ struct context {
     struct frame {
         pvd::PVFieldPtr fld;
         pvd::BitSet *assigned;
-        frame(const pvd::PVFieldPtr& fld, pvd::BitSet *assigned)
-            :fld(fld), assigned(assigned)
+        // has the { or [ of this structure or array been seen?
+        bool opened;
+        // elements of an array not yet complete
+        pvd::shared_vector<void> arr;
+        pvd::PVStructureArray::svector sarr;
+        frame(const pvd::PVFieldPtr& fld, pvd::BitSet *assigned, bool opened=false)
+            :fld(fld), assigned(assigned), opened(opened)
         {}
     };
 
@@ -66,21 +71,18 @@ void valueAssign(context *self, typename PVScalarT::value_type val)
         self->stack.pop_back();
         // structure at the top of the stack
 
-    } else if(type==pvd::scalarArray) {
+    } else if(type==pvd::scalarArray && back.opened) {
         pvd::PVScalarArray *fld(static_cast<pvd::PVScalarArray*>(back.fld.get()));
 
-        pvd::shared_vector<const void> carr;
-        fld->getAs(carr);
-
-        switch(carr.original_type())
+        switch(fld->getScalarArray()->getElementType())
         {
 #define CASE_STRING
 #define CASE_REAL_INT64
 #define CASE(BASETYPE, PVATYPE, DBFTYPE, PVACODE) case epics::pvData::pv##PVACODE: { \
-            pvd::shared_vector<const PVATYPE> arr(pvd::static_shared_vector_cast<const PVATYPE>(carr)); \
-            pvd::shared_vector<PVATYPE> tarr(pvd::thaw(arr)); \
+            pvd::shared_vector<PVATYPE> tarr(pvd::static_shared_vector_cast<PVATYPE>(back.arr)); \
+            back.arr.clear(); \
             tarr.push_back(pvd::castUnsafe<PVATYPE>(val)); \
-            carr = pvd::static_shared_vector_cast<const void>(pvd::freeze(tarr)); \
+            back.arr = pvd::static_shared_vector_cast<void>(tarr); \
             } break;
 #include <pv/typemap.h>
 #undef CASE
@@ -88,8 +90,6 @@ void valueAssign(context *self, typename PVScalarT::value_type val)
 #undef CASE_STRING
         }
 
-        fld->putFrom(carr);
-
         // leave array field at top of stack
 
     } else if(type==pvd::union_) {
@@ -180,15 +180,16 @@ int jtree_start_map(void * ctx)
 
         context::frame& back = self->stack.back();
         pvd::Type type = back.fld->getField()->getType();
-        if(type==pvd::structure) {
+        if(type==pvd::structure && !back.opened) {
             // will fill in
-        } else if(type==pvd::structureArray) {
+            back.opened = true;
+        } else if(type==pvd::structureArray && back.opened) {
             // starting new element in structure array
             pvd::PVStructureArray* sarr(static_cast<pvd::PVStructureArray*>(back.fld.get()));
 
             pvd::PVStructurePtr elem(pvd::getPVDataCreate()->createPVStructure(sarr->getStructureArray()->getStructure()));
 
-            self->stack.push_back(context::frame(elem, 0));
+            self->stack.push_back(context::frame(elem, 0, true));
         } else {
             throw std::runtime_error("Can't map (sub)structure");
         }
@@ -231,16 +232,7 @@ int jtree_end_map(void * ctx)
 
         if(!self->stack.empty() && self->stack.back().fld->getField()->getType()==pvd::structureArray) {
             // append element to struct array
-            pvd::PVStructureArray *sarr = static_cast<pvd::PVStructureArray*>(self->stack.back().fld.get());
-
-            pvd::PVStructureArray::const_svector cval;
-            sarr->swap(cval);
-
-            pvd::PVStructureArray::svector val(pvd::thaw(cval));
-
-            val.push_back(std::tr1::static_pointer_cast<pvd::PVStructure>(elem.fld));
-
-            sarr->replace(pvd::freeze(val));
+            self->stack.back().sarr.push_back(std::tr1::static_pointer_cast<pvd::PVStructure>(elem.fld));
         }
 
         return 1;
@@ -251,11 +243,27 @@ int jtree_start_array(void * ctx)
 {
     TRY {
         assert(!self->stack.empty());
-        pvd::PVFieldPtr& back(self->stack.back().fld);
-        pvd::Type type = back->getField()->getType();
-        if(type!=pvd::structureArray && type!=pvd::scalarArray)
+        context::frame& back = self->stack.back();
+        pvd::Type type = back.fld->getField()->getType();
+        if((type!=pvd::structureArray && type!=pvd::scalarArray) || back.opened)
             throw std::runtime_error("Can't assign array");
 
+        // replaces any existing elements
+        back.opened = true;
+        if(type==pvd::scalarArray) {
+            switch(static_cast<pvd::PVScalarArray*>(back.fld.get())->getScalarArray()->getElementType())
+            {
+#define CASE_STRING
+#define CASE_REAL_INT64
+#define CASE(BASETYPE, PVATYPE, DBFTYPE, PVACODE) case epics::pvData::pv##PVACODE: \
+                back.arr = pvd::static_shared_vector_cast<void>(pvd::shared_vector<PVATYPE>()); break;
+#include <pv/typemap.h>
+#undef CASE
+#undef CASE_REAL_INT64
+#undef CASE_STRING
+            }
+        }
+
         return 1;
     }CATCH()
 }
@@ -264,8 +272,14 @@ int jtree_end_array(void * ctx)
     TRY {
         assert(!self->stack.empty());
 
-        if(self->stack.back().assigned)
-            self->stack.back().assigned->set(self->stack.back().fld->getFieldOffset());
+        context::frame& back = self->stack.back();
+        if(back.fld->getField()->getType()==pvd::scalarArray)
+            static_cast<pvd::PVScalarArray*>(back.fld.get())->putFrom(pvd::freeze(back.arr));
+        else
+            static_cast<pvd::PVStructureArray*>(back.fld.get())->replace(pvd::freeze(back.sarr));
+
+        if(back.assigned)
+            back.assigned->set(back.fld->getFieldOffset());
         self->stack.pop_back();
         return 1;
     }CATCH()
-- 
2.43.0


From 14b12c4b8a20943bb6757a43ce96beb1c141df33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 31/78] fix: getSubField does not take a name with an embedded
 nil for its prefix

---
 src/pv/pvData.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pv/pvData.h b/src/pv/pvData.h
index 262e6b3..0a6e77d 100644
--- a/src/pv/pvData.h
+++ b/src/pv/pvData.h
@@ -920,6 +920,12 @@ public:
 private:
 
     inline PVFieldPtr getSubFieldImpl(const std::string& name, bool throws) const {
+        if(name.find('\0')!=std::string::npos) {
+            // not to be taken for the field named by what precedes the nil
+            if(throws)
+                throw std::runtime_error("Failed to get field: (No nil allowed in field name)");
+            return PVFieldPtr();
+        }
         return getSubFieldImpl(name.c_str(), throws);
     }
     PVFieldPtr getSubFieldImpl(const char *name, bool throws) const;
-- 
2.43.0


From 85522be69a22c45f279028c3638ab7a79d0f1fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 32/78] fix: createRequest does not ignore short record options

---
 src/copy/createRequest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index 2616550..f0ac073 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -369,7 +369,7 @@ struct CreateRequestImpl {
                         throw std::runtime_error(request.substr(offsetRecord) +
                             "record[ does not have matching ]");
                     }
-                    if(closeBracket-openBracket > 3) {
+                    if(closeBracket-openBracket > 1) {
                         Node node("record");
                         Node optNode = createRequestOptions(
                                 request.substr(openBracket+1,closeBracket-openBracket-1));
-- 
2.43.0


From fad1ab661677d72e823d5f3b39b60d19c7efe10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:01 +0000
Subject: [PATCH 33/78] fix: createRequest does not run out of stack on long or
 deeply nested requests

---
 src/copy/createRequest.cpp | 53 +++++++++++++++++++++-----------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index f0ac073..8567df9 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -28,6 +28,9 @@ using namespace epics::pvData;
 static PVDataCreatePtr pvDataCreate = getPVDataCreate();
 static FieldCreatePtr fieldCreate = getFieldCreate();
 
+// Arbitrary limit on nesting to bound stack usage during recursion
+static const size_t maxDepth = 1000;
+
 struct CreateRequestImpl {
 
     struct Node
@@ -67,18 +70,14 @@ struct CreateRequestImpl {
     }
 
     size_t findMatchingBrace(string& request, size_t index, int numOpen) {
-        size_t openBrace = request.find('{', index+1);
-        size_t closeBrace = request.find('}', index+1);
-        if(openBrace == string::npos && closeBrace == string::npos){
-             throw std::runtime_error(request + " mismatched {}");
-        }
-        if (openBrace != string::npos && openBrace!=0) {
-            if(openBrace<closeBrace) return findMatchingBrace(request,openBrace,numOpen+1);
-            if(numOpen==1) return closeBrace;
-            return findMatchingBrace(request,closeBrace,numOpen-1);
+        for(size_t i=index+1; i< request.size(); ++i) {
+            if(request[i] == '{') {
+                ++numOpen;
+            } else if(request[i] == '}' && --numOpen==0) {
+                return i;
+            }
         }
-        if(numOpen==1) return closeBrace;
-        return findMatchingBrace(request,closeBrace,numOpen-1);
+        throw std::runtime_error(request + " mismatched {}");
     }
 
     size_t findMatchingBracket(string& request, size_t index) {
@@ -168,9 +167,18 @@ struct CreateRequestImpl {
     }
 
 
-    void createSubNode(Node &node,string const & crequest)
+    void createSubNode(Node &node,string const & crequest,size_t depth = 0u)
     {
+        if(depth >= maxDepth) {
+            throw std::runtime_error("fields nested too deeply");
+        }
         string request = crequest;
+        while(createSubNodeOne(node, request, depth)) {}
+    }
+
+    // parse one (comma separated) element, return true if request holds those which follow it.
+    bool createSubNodeOne(Node &node,string& request,size_t depth)
+    {
         size_t end = 0;
         for(size_t i=0; i<request.size(); ++i) {
             if(request[i]=='[') { end = i; break;}
@@ -213,16 +221,15 @@ struct CreateRequestImpl {
             if(optionNode.name.size()>0) subNode.nodes.push_back(optionNode);
             node.nodes.push_back(subNode);
             fullFieldName = saveFullName;
-            return;
+            return false;
         }
         if(chr==',') {
             Node subNode(name);
             if(optionNode.name.size()>0) subNode.nodes.push_back(optionNode);
             node.nodes.push_back(subNode);
-            string rest = request.substr(end+1);
+            request.erase(0, end+1);
             fullFieldName = saveFullName;
-            createSubNode(node,rest);
-            return;
+            return true;
         }
         if(chr=='.') {
             request = request.substr(end+1);
@@ -233,17 +240,16 @@ struct CreateRequestImpl {
             if(optionNode.name.size()>0) subNode.nodes.push_back(optionNode);
             size_t endField = findEndField(request);
             string subRequest = request.substr(0, endField);
-            createSubNode(subNode,subRequest);
+            createSubNode(subNode,subRequest,depth+1u);
             node.nodes.push_back(subNode);
             size_t next = endField+1;
             if(next>=request.size()) {
                 fullFieldName = saveFullName;
-                return;
+                return false;
             }
             request = request.substr(next);
             fullFieldName = saveFullName;
-            createSubNode(node,request);
-            return;
+            return true;
         }
         if(chr=='{') {
             size_t endBrace = findEndField(request);
@@ -256,17 +262,16 @@ struct CreateRequestImpl {
             }
             Node subNode(name);
             if(optionNode.name.size()>0) subNode.nodes.push_back(optionNode);
-            createSubNode(subNode,subRequest);
+            createSubNode(subNode,subRequest,depth+1u);
             node.nodes.push_back(subNode);
             size_t next = endBrace + 1;
             if(next>=request.size()) {
                 fullFieldName = saveFullName;
-                return;
+                return false;
             }
             request = request.substr(next);
             fullFieldName = saveFullName;
-            createSubNode(node,request);
-            return;
+            return true;
         }
         throw std::runtime_error("logic error");
     }
-- 
2.43.0


From dd3ee73a116f0c05531049f971a5844ac1b0068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:48 +0000
Subject: [PATCH 34/78] fix: PVRequestMapper took the options of a field for a
 selection of its sub-fields

---
 src/copy/requestmapper.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/copy/requestmapper.cpp b/src/copy/requestmapper.cpp
index 6fd2fcd..6152f71 100644
--- a/src/copy/requestmapper.cpp
+++ b/src/copy/requestmapper.cpp
@@ -21,8 +21,22 @@
 // Our arbitrary limit on pvRequest structure depth to bound stack usage during recursion
 static const unsigned maxDepth = 5;
 
+// name under which createRequest() puts the options of a field.  Not part of the selection.
+static const char optionsName[] = "_options";
+
 namespace epics{namespace pvData {
 
+// does this part of a pvRequest not name any sub-field?
+static bool selectsNone(const Structure& req)
+{
+    const StringArray& names = req.getFieldNames();
+    for(size_t i=0, N=names.size(); i<N; i++) {
+        if(names[i]!=optionsName)
+            return false;
+    }
+    return true;
+}
+
 PVRequestMapper::PVRequestMapper() {}
 
 PVRequestMapper::PVRequestMapper(const PVStructure &base,
@@ -70,7 +84,7 @@ void PVRequestMapper::compute(const PVStructure &base,
     }
 
     PVStructure::const_shared_pointer fields(pvRequest.getSubField<PVStructure>("field"));
-    if(!fields || fields->getPVFields().empty()) {
+    if(!fields || selectsNone(*fields->getStructure())) {
         // not selection, or empty selection, treated as select all
         temp.typeBase = temp.typeRequested = base.getStructure();
 
@@ -159,6 +173,9 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
     for(size_t i=0, N=reqNames.size(); i<N; i++) {
         // iterate through requested fields
 
+        if(reqNames[i]==optionsName)
+            continue;
+
         PVField::const_shared_pointer subtype(base.getSubField(reqNames[i]));
         const FieldConstPtr& subReq = pvReq.getStructure()->getFields()[i];
 
@@ -180,7 +197,7 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
 
         } else if(depth>=maxDepth // exceeds max recursion depth
                   || subtype->getField()->getType()!=structure // requested field is a leaf
-                  || static_cast<const Structure&>(*subReq).getFieldNames().empty() // requests all sub-fields
+                  || selectsNone(static_cast<const Structure&>(*subReq)) // requests all sub-fields
                   )
         {
             // just add the whole thing
@@ -189,7 +206,7 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
                 maskRequested.set(j);
 
             if(subtype->getField()->getType()!=structure
-                    && !static_cast<const Structure&>(*subReq).getFieldNames().empty())
+                    && !selectsNone(static_cast<const Structure&>(*subReq)))
             {
                 // attempt to select below a leaf field
                 std::ostringstream msg;
-- 
2.43.0


From f53ac02ad3594a92aa7c1b0a232c52dffeb7c8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:55 +0000
Subject: [PATCH 35/78] fix: PVRequestMapper asserted on bits of fields not
 selected in Mask mode

---
 src/copy/requestmapper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/copy/requestmapper.cpp b/src/copy/requestmapper.cpp
index 6152f71..088fb1c 100644
--- a/src/copy/requestmapper.cpp
+++ b/src/copy/requestmapper.cpp
@@ -273,7 +273,7 @@ void PVRequestMapper::_map(const PVStructure& src, const BitSet& maskSrc,
         for(int32 i=scratch.nextSetBit(0), N=map.size(); i>=0 && i<N; i=scratch.nextSetBit(i+1)) {
             const Mapping& M = map[i];
             if(!M.valid) {
-                assert(!dir_r2b); // only base -> requested mapping can have holes
+                // not selected.  Either mapping can have holes, request -> base only when masking
 
             } else if(M.leaf) {
                 // just copy
@@ -306,7 +306,7 @@ void PVRequestMapper::_mapMask(const BitSet& maskSrc,
         for(int32 i=maskSrc.nextSetBit(0), N=map.size(); i>=0 && i<N; i=maskSrc.nextSetBit(i+1)) {
             const Mapping& M = map[i];
             if(!M.valid) {
-                assert(!dir_r2b); // only base -> requested mapping can have holes
+                // not selected.  Either mapping can have holes, request -> base only when masking
 
             } else {
                 maskDest.set(M.to);
-- 
2.43.0


From 8b01febf68521f443ec45df0a4ba32ba109cc20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:32 +0000
Subject: [PATCH 36/78] fix: PVRequestMapper accepted an invalid pvRequest when
 the error is not at its top

---
 src/copy/requestmapper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/copy/requestmapper.cpp b/src/copy/requestmapper.cpp
index 088fb1c..c49eae3 100644
--- a/src/copy/requestmapper.cpp
+++ b/src/copy/requestmapper.cpp
@@ -228,9 +228,9 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
             if(keepids)
                 builder = builder->setId(substruct.getStructure()->getID());
 
-            _compute(substruct,
-                     static_cast<const PVStructure&>(*pvReq.getPVFields()[i]),
-                     builder, keepids, depth+1u);
+            ok &= _compute(substruct,
+                           static_cast<const PVStructure&>(*pvReq.getPVFields()[i]),
+                           builder, keepids, depth+1u);
 
             builder = builder->endNested();
         }
-- 
2.43.0


From 3a7a427dd3498d361d5a0e86f24eaaf163bc7c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 37/78] fix: TimeStamp was not normalized after adding a double
 or from negative milliseconds

---
 src/property/timeStamp.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index 57e4c4c..ba98318 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -65,6 +65,7 @@ void TimeStamp::put(int64 milliseconds)
 {
     secondsPastEpoch = milliseconds/1000;
     nanoseconds = (milliseconds%1000)*1000000;
+    normalize();
 }
 
 void TimeStamp::getCurrent()
@@ -163,14 +164,8 @@ TimeStamp & TimeStamp::operator+=(double seconds)
     int64 secs = static_cast<int64>(seconds);
     int64 nano = static_cast<int64>((seconds - secs)*1e9);
     nanoseconds += static_cast<int32>(nano);
-    if(nanoseconds>nanoSecPerSec) {
-        nanoseconds -= nanoSecPerSec;
-        secondsPastEpoch += 1;
-    } else if(nanoseconds<-nanoSecPerSec) {
-        nanoseconds += -nanoSecPerSec;
-        secondsPastEpoch -= 1;
-    }
     secondsPastEpoch += secs;
+    normalize();
     return *this;
 }
 
-- 
2.43.0


From 90366f943a540dba331955e2b47c23d915cc52bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 38/78] fix: TimeStamp comparison overflowed for times 292
 years apart

---
 src/property/timeStamp.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index ba98318..fa62a33 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -91,10 +91,9 @@ int64 TimeStamp::diffInt(TimeStamp const & left,TimeStamp  const&right )
     int32 nl = left.nanoseconds;
     int64 sr = right.secondsPastEpoch;
     int32 nr = right.nanoseconds;
-    int64 sdiff = sl - sr;
-    sdiff *= nanoSecPerSec;
-    sdiff += nl - nr;
-    return sdiff;
+    // only the sign matters.  The difference in nanoseconds may not fit an int64
+    if(sl!=sr) return sl<sr ? -1 : 1;
+    return static_cast<int64>(nl) - nr;
 }
 
 bool TimeStamp::operator==(TimeStamp const &right) const
-- 
2.43.0


From 9a7e4ac8ffcc8426d87a5a979ad95c0ce78513ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 39/78] fix: TimeStamp conversion from/to time_t wrong outside
 of 1990 to 2126

---
 src/property/timeStamp.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index fa62a33..1107f57 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -47,18 +47,14 @@ void TimeStamp::normalize()
 
 void TimeStamp::fromTime_t(const time_t & tt)
 {
-    epicsTimeStamp epicsTime;
-    epicsTimeFromTime_t(&epicsTime,tt);
-    secondsPastEpoch = epicsTime.secPastEpoch + posixEpochAtEpicsEpoch;
-    nanoseconds = epicsTime.nsec;
+    // not by way of epicsTimeStamp, which can't hold times before 1990
+    secondsPastEpoch = static_cast<int64>(tt);
+    nanoseconds = 0;
 }
 
 void TimeStamp::toTime_t(time_t  &tt) const
 {
-    epicsTimeStamp epicsTime;
-    epicsTime.secPastEpoch = static_cast<epicsUInt32>(secondsPastEpoch-posixEpochAtEpicsEpoch);
-    epicsTime.nsec = nanoseconds;
-    epicsTimeToTime_t(&tt,&epicsTime);
+    tt = static_cast<time_t>(secondsPastEpoch);
 }
 
 void TimeStamp::put(int64 milliseconds)
-- 
2.43.0


From 0eb60580b86c8553e2b7894c0bb05b37414bb739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 40/78] fix: PVDisplay::isAttached() was inverted

---
 src/property/pvDisplay.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property/pvDisplay.cpp b/src/property/pvDisplay.cpp
index 0027cb7..df207c5 100644
--- a/src/property/pvDisplay.cpp
+++ b/src/property/pvDisplay.cpp
@@ -62,7 +62,7 @@ void PVDisplay::detach()
 }
 
 bool PVDisplay::isAttached() {
-    if(pvDescription.get()) return false;
+    if(pvDescription.get()==NULL) return false;
     return true;
 }
 
-- 
2.43.0


From 46b4022c3bef49f29ad9236cf4d808d8d09514f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 41/78] fix: PVEnumerated::choicesMutable() was inverted

---
 src/property/pvEnumerated.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property/pvEnumerated.cpp b/src/property/pvEnumerated.cpp
index 5aa61d0..45d2b9a 100644
--- a/src/property/pvEnumerated.cpp
+++ b/src/property/pvEnumerated.cpp
@@ -86,7 +86,7 @@ bool PVEnumerated::choicesMutable()
     if(pvIndex.get()==NULL ) {
          throw std::logic_error(notAttached);
     }
-    return pvChoices->isImmutable();
+    return !pvChoices->isImmutable();
 }
 
 int32 PVEnumerated::getNumberChoices()
-- 
2.43.0


From bc0ccc9fe299709ff2981ab94b4c464d4da69cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 42/78] fix: property helpers stayed attached to, or kept, a
 previous field after attach() failed or detach()

---
 src/property/pvAlarm.cpp      | 1 +
 src/property/pvControl.cpp    | 2 ++
 src/property/pvDisplay.cpp    | 1 +
 src/property/pvEnumerated.cpp | 1 +
 src/property/pvTimeStamp.cpp  | 1 +
 5 files changed, 6 insertions(+)

diff --git a/src/property/pvAlarm.cpp b/src/property/pvAlarm.cpp
index 213d4d0..8c43427 100644
--- a/src/property/pvAlarm.cpp
+++ b/src/property/pvAlarm.cpp
@@ -25,6 +25,7 @@ string PVAlarm::notAttached("Not attached to an alarm structure");
 
 bool PVAlarm::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvSeverity = pvStructure->getSubField<PVInt>("severity");
diff --git a/src/property/pvControl.cpp b/src/property/pvControl.cpp
index be023e1..7e96544 100644
--- a/src/property/pvControl.cpp
+++ b/src/property/pvControl.cpp
@@ -25,6 +25,7 @@ string PVControl::notAttached("Not attached to an control structure");
 
 bool PVControl::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvLow = pvStructure->getSubField<PVDouble>("limitLow");
@@ -47,6 +48,7 @@ void PVControl::detach()
 {
     pvLow.reset();
     pvHigh.reset();
+    pvMinStep.reset();
 }
 
 bool PVControl::isAttached(){
diff --git a/src/property/pvDisplay.cpp b/src/property/pvDisplay.cpp
index df207c5..613a969 100644
--- a/src/property/pvDisplay.cpp
+++ b/src/property/pvDisplay.cpp
@@ -25,6 +25,7 @@ string PVDisplay::notAttached("Not attached to an display structure");
 
 bool PVDisplay::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvDescription = pvStructure->getSubField<PVString>("description");
diff --git a/src/property/pvEnumerated.cpp b/src/property/pvEnumerated.cpp
index 45d2b9a..57683bd 100644
--- a/src/property/pvEnumerated.cpp
+++ b/src/property/pvEnumerated.cpp
@@ -25,6 +25,7 @@ string PVEnumerated::notAttached("Not attached to an enumerated structure");
 
 bool PVEnumerated::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr pvStructure = static_pointer_cast<PVStructure>(pvField);
     pvIndex = pvStructure->getSubField<PVInt>("index");
diff --git a/src/property/pvTimeStamp.cpp b/src/property/pvTimeStamp.cpp
index 07976bf..2136bb2 100644
--- a/src/property/pvTimeStamp.cpp
+++ b/src/property/pvTimeStamp.cpp
@@ -25,6 +25,7 @@ string PVTimeStamp::notAttached("Not attached to a timeStamp structure");
 
 bool PVTimeStamp::attach(PVFieldPtr const & pvField)
 {
+    detach();
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr xxx = static_pointer_cast<PVStructure>(pvField);
     PVStructure* pvStructure = xxx.get();
-- 
2.43.0


From 0809b5673c5186c974fb66b0bfe3a5d1580724b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:20 +0000
Subject: [PATCH 43/78] fix: PVAlarm and PVTimeStamp set() threw or left fields
 unset, depending on immutability or previous content

---
 src/property/pvAlarm.cpp     | 10 ++++------
 src/property/pvTimeStamp.cpp | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/property/pvAlarm.cpp b/src/property/pvAlarm.cpp
index 8c43427..0ef367b 100644
--- a/src/property/pvAlarm.cpp
+++ b/src/property/pvAlarm.cpp
@@ -72,21 +72,19 @@ bool PVAlarm::set(Alarm const & alarm)
     if(pvSeverity.get()==NULL) {
         throw std::logic_error(notAttached);
     }
-    if(pvSeverity->isImmutable() || pvMessage->isImmutable()) return false;
-    Alarm current;
-    get(current);
+    if(pvSeverity->isImmutable() || pvStatus->isImmutable() || pvMessage->isImmutable()) return false;
     bool returnValue = false;
-    if(current.getSeverity()!=alarm.getSeverity())
+    if(pvSeverity->get()!=alarm.getSeverity())
     {
         pvSeverity->put(alarm.getSeverity());
         returnValue = true;
     }
-    if(current.getStatus()!=alarm.getStatus())
+    if(pvStatus->get()!=alarm.getStatus())
     {
         pvStatus->put(alarm.getStatus());
         returnValue = true;
     }
-    if(current.getMessage()!=alarm.getMessage())
+    if(pvMessage->get()!=alarm.getMessage())
     {
         pvMessage->put(alarm.getMessage());
         returnValue = true;
diff --git a/src/property/pvTimeStamp.cpp b/src/property/pvTimeStamp.cpp
index 2136bb2..d3d397a 100644
--- a/src/property/pvTimeStamp.cpp
+++ b/src/property/pvTimeStamp.cpp
@@ -73,21 +73,19 @@ bool PVTimeStamp::set(TimeStamp const & timeStamp)
     if(pvSecs.get()==NULL) {
         throw std::logic_error(notAttached);
     }
-    if(pvSecs->isImmutable() || pvNano->isImmutable()) return false;
-    TimeStamp current;
-    get(current);
+    if(pvSecs->isImmutable() || pvNano->isImmutable() || pvUserTag->isImmutable()) return false;
     bool returnValue = false;
-    if(current.getSecondsPastEpoch()!=timeStamp.getSecondsPastEpoch())
+    if(pvSecs->get()!=timeStamp.getSecondsPastEpoch())
     {
         pvSecs->put(timeStamp.getSecondsPastEpoch());
         returnValue = true;
     }
-    if(current.getNanoseconds()!=timeStamp.getNanoseconds())
+    if(pvNano->get()!=timeStamp.getNanoseconds())
     {
         pvNano->put(timeStamp.getNanoseconds());
         returnValue = true;
     }
-    if(current.getUserTag()!=timeStamp.getUserTag())
+    if(pvUserTag->get()!=timeStamp.getUserTag())
     {
         pvUserTag->put(timeStamp.getUserTag());
         returnValue = true;
-- 
2.43.0


From ab1a6a0157c7feccd23e1d91b92783d602fb3d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 44/78] fix: PVEnumerated::getChoices() of a detached helper
 dereferenced NULL

---
 src/property/pv/pvEnumerated.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/property/pv/pvEnumerated.h b/src/property/pv/pvEnumerated.h
index c10f4aa..365d0cb 100644
--- a/src/property/pv/pvEnumerated.h
+++ b/src/property/pv/pvEnumerated.h
@@ -10,6 +10,7 @@
 #define PVENUMERATED_H
 
 #include <string>
+#include <stdexcept>
 
 #include <pv/pvType.h>
 #include <pv/pvData.h>
@@ -88,7 +89,10 @@ public:
      * @return The current index.
      * @throw if not attached.
      */
-    inline PVStringArray::const_svector getChoices(){return pvChoices->view();}
+    inline PVStringArray::const_svector getChoices(){
+        if(!pvChoices) throw std::logic_error(notAttached);
+        return pvChoices->view();
+    }
     /**
      * Get the size of the choices array.
      * @return The size.
-- 
2.43.0


From f439c91db4d9b9cf93845ff2b26cad4ca2b28fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:59 +0000
Subject: [PATCH 45/78] fix: ValueBuilder leaked a replaced field, and all
 fields when cloning failed

---
 src/pv/valueBuilder.cpp | 17 ++++++++++++++++-
 src/pv/valueBuilder.h   |  2 ++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/pv/valueBuilder.cpp b/src/pv/valueBuilder.cpp
index a12ee88..8f16672 100644
--- a/src/pv/valueBuilder.cpp
+++ b/src/pv/valueBuilder.cpp
@@ -148,7 +148,13 @@ ValueBuilder::ValueBuilder(const PVStructure& clone) :parent(0)
 {
     StructureConstPtr ctype(clone.getStructure());
     id = ctype->getID();
-    child_struct::fillStruct(*this, clone);
+    try {
+        child_struct::fillStruct(*this, clone);
+    } catch(...) {
+        // our dtor won't run
+        clear();
+        throw;
+    }
 }
 
 
@@ -158,6 +164,11 @@ ValueBuilder::ValueBuilder(ValueBuilder* par, const std::string &id)
 {}
 
 ValueBuilder::~ValueBuilder()
+{
+    clear();
+}
+
+void ValueBuilder::clear()
 {
     for(children_t::const_iterator it=children.begin(), end=children.end(); it!=end; ++it)
         delete it->second;
@@ -218,6 +229,10 @@ void ValueBuilder::_add(const std::string& name, const shared_vector<const void>
 
     epics::auto_ptr<child> store(new child_scalar_array(V));
 
+    if(it!=children.end()) {
+        delete it->second;
+        children.erase(it);
+    }
     children[name] = store.get();
     store.release();
 }
diff --git a/src/pv/valueBuilder.h b/src/pv/valueBuilder.h
index 39ab572..572e6df 100644
--- a/src/pv/valueBuilder.h
+++ b/src/pv/valueBuilder.h
@@ -76,6 +76,8 @@ private:
 
     ValueBuilder(ValueBuilder*, const std::string &id = std::string());
 
+    void clear();
+
     ValueBuilder * const parent;
     struct child;
     friend struct child;
-- 
2.43.0


From 5c4eb8c92a39b38f8a67fec4f836028d4a9a0c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:35 +0000
Subject: [PATCH 46/78] fix: escape printed the hex digit 9 as '@'

---
 src/factory/printer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory/printer.cpp b/src/factory/printer.cpp
index 846f2de..a064979 100644
--- a/src/factory/printer.cpp
+++ b/src/factory/printer.cpp
@@ -466,7 +466,7 @@ std::ostream& operator<<(std::ostream& strm, const PVStructure::Formatter& forma
 
 static char hexdigit(char c) {
     c &= 0xf;
-    if(c<9)
+    if(c<=9)
         return '0'+c;
     else
         return 'A'+c-10;
-- 
2.43.0


From 11520ed7c320f47d4f6135869b8b497785d02cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 47/78] fix: printing a sub-structure showed none of its
 fields, or failed when given a mask

---
 src/factory/printer.cpp | 17 ++++++++++++-----
 src/json/jprint.cpp     | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/factory/printer.cpp b/src/factory/printer.cpp
index a064979..f0297d2 100644
--- a/src/factory/printer.cpp
+++ b/src/factory/printer.cpp
@@ -286,14 +286,21 @@ bool printTable(std::ostream& strm, const PVStructure& top)
 }
 
 void expandBS(const PVStructure& top, BitSet& mask, bool parents) {
-    if(mask.get(0)) { // special handling because getSubField(0) not allowed
-        // wildcard
-        for(size_t idx=1, N=top.getNumberFields(); idx<N; idx++) {
+    // bits are field offsets, which start at that of 'top' when it is itself a sub-structure
+    const uint32 first = top.getFieldOffset(), last = top.getNextFieldOffset();
+
+    bool all = mask.get(0); // wildcard.  special handling because getSubField(first) not allowed
+    for(const PVStructure *parent = &top; parent && !all; parent = parent->getParent()) {
+        all = mask.get(parent->getFieldOffset());
+    }
+
+    if(all) {
+        for(size_t idx=first; idx<last; idx++) {
             mask.set(idx);
         }
 
     } else {
-        for(int32 idx = mask.nextSetBit(0), N=top.getNumberFields(); idx>=0 && idx<N; idx=mask.nextSetBit(idx+1)) {
+        for(int32 idx = mask.nextSetBit(first), N=last; idx>=0 && idx<N; idx=mask.nextSetBit(idx+1)) {
             PVField::const_shared_pointer fld = top.getSubFieldT(idx);
 
             // look forward and mark all children
@@ -336,7 +343,7 @@ void printRaw(std::ostream& strm, const PVStructure::Formatter& format, const PV
         highlight &= show; // can't highlight hidden fields (paranoia)
     }
 
-    if(!show.get(0)) return; // nothing to do here...
+    if(!show.get(format.xtop.getFieldOffset())) return; // nothing to do here...
 
     todo.push_front(std::make_pair(&format.xtop, orig_indent));
 
diff --git a/src/json/jprint.cpp b/src/json/jprint.cpp
index f426a9f..b799d65 100644
--- a/src/json/jprint.cpp
+++ b/src/json/jprint.cpp
@@ -263,14 +263,21 @@ void show_field(args& A, const pvd::PVField* fld, const pvd::BitSet *mask)
 }
 
 void expandBS(const pvd::PVStructure& top, pvd::BitSet& mask, bool parents) {
-    if(mask.get(0)) { // special handling because getSubField(0) not allowed
-        // wildcard
-        for(size_t idx=1, N=top.getNumberFields(); idx<N; idx++) {
+    // bits are field offsets, which start at that of 'top' when it is itself a sub-structure
+    const pvd::uint32 first = top.getFieldOffset(), last = top.getNextFieldOffset();
+
+    bool all = mask.get(0); // wildcard.  special handling because getSubField(first) not allowed
+    for(const pvd::PVStructure *parent = &top; parent && !all; parent = parent->getParent()) {
+        all = mask.get(parent->getFieldOffset());
+    }
+
+    if(all) {
+        for(size_t idx=first; idx<last; idx++) {
             mask.set(idx);
         }
 
     } else {
-        for(pvd::int32 idx = mask.nextSetBit(0), N=top.getNumberFields(); idx>=0 && idx<N; idx=mask.nextSetBit(idx+1)) {
+        for(pvd::int32 idx = mask.nextSetBit(first), N=last; idx>=0 && idx<N; idx=mask.nextSetBit(idx+1)) {
             pvd::PVField::const_shared_pointer fld = top.getSubFieldT(idx);
 
             // look forward and mark all children
@@ -307,7 +314,7 @@ void printJSON(std::ostream& strm,
     args A(strm, opts);
     pvd::BitSet emask(mask);
     expandBS(val, emask, true);
-    if(!emask.get(0)) return;
+    if(!emask.get(val.getFieldOffset())) return;
     show_struct(A, &val, &emask);
 }
 
-- 
2.43.0


From e73f24913a3dd871141a1cc036c0e2b3cc80021d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:58 +0000
Subject: [PATCH 48/78] fix: printing a value changed the formatting of later
 output on the stream

---
 src/factory/printer.cpp | 21 +++++++++++++++++++++
 src/pv/pvData.h         |  2 +-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/factory/printer.cpp b/src/factory/printer.cpp
index f0297d2..547a66e 100644
--- a/src/factory/printer.cpp
+++ b/src/factory/printer.cpp
@@ -56,6 +56,25 @@ array_at_internal operator<<(std::ostream& str, array_at const& manip)
 namespace {
 using namespace epics::pvData;
 
+// restore formatting of a stream on scope exit
+struct stream_state {
+    std::ostream& strm;
+    const std::ios_base::fmtflags flags;
+    const std::streamsize precision;
+    const long indent;
+    explicit stream_state(std::ostream& strm)
+        :strm(strm)
+        ,flags(strm.flags())
+        ,precision(strm.precision())
+        ,indent(format::indent_value(strm))
+    {}
+    ~stream_state() {
+        strm.flags(flags);
+        strm.precision(precision);
+        format::indent_value(strm) = indent;
+    }
+};
+
 bool useEscapes(std::ostream& strm) {
     FILE *fp = 0;
     // TODO: a better way to do this...
@@ -408,6 +427,8 @@ void printRaw(std::ostream& strm, const PVStructure::Formatter& format, const PV
 
 std::ostream& operator<<(std::ostream& strm, const PVStructure::Formatter& format)
 {
+    stream_state restore(strm);
+
     if(format.xfmt==PVStructure::Formatter::JSON) {
         JSONPrintOptions opts;
         opts.multiLine = false;
diff --git a/src/pv/pvData.h b/src/pv/pvData.h
index 0a6e77d..2994172 100644
--- a/src/pv/pvData.h
+++ b/src/pv/pvData.h
@@ -484,7 +484,7 @@ std::ostream& PVScalarValue<uint8>::dumpValue(std::ostream& o) const
 template<> inline
 std::ostream& PVScalarValue<boolean>::dumpValue(std::ostream& o) const
 {
-    return o << std::boolalpha << static_cast<bool>(get());
+    return o << print_cast(get());
 }
 
 /*
-- 
2.43.0


From f0d1f5252949cae856bb6fe9a7df404022444f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 49/78] fix: AnyScalar printed byte, ubyte and boolean values
 as characters

---
 src/misc/anyscalar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/anyscalar.cpp b/src/misc/anyscalar.cpp
index c140a97..4afd04f 100644
--- a/src/misc/anyscalar.cpp
+++ b/src/misc/anyscalar.cpp
@@ -145,7 +145,7 @@ const void* AnyScalar::bufferUnsafe() const {
 std::ostream& operator<<(std::ostream& strm, const AnyScalar& v)
 {
     switch(v.type()) {
-#define CASE(BASETYPE, PVATYPE, DBFTYPE, PVACODE) case pv ## PVACODE: strm<<v._as<PVATYPE>(); break;
+#define CASE(BASETYPE, PVATYPE, DBFTYPE, PVACODE) case pv ## PVACODE: strm<<print_cast(v._as<PVATYPE>()); break;
 #define CASE_REAL_INT64
 #define CASE_STRING
 #include "pv/typemap.h"
-- 
2.43.0


From 6b2d2d93e6f0fc8df156ac814c26f2443239104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 50/78] fix: time stamps from 2106 on printed as a date decades
 earlier

---
 src/factory/printer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/factory/printer.cpp b/src/factory/printer.cpp
index 547a66e..174b300 100644
--- a/src/factory/printer.cpp
+++ b/src/factory/printer.cpp
@@ -141,13 +141,13 @@ void printTimeTx(std::ostream& strm, const PVStructure& tsubop)
                                    nsecf(tsubop.getSubField<PVScalar>("nanoseconds")),
                                    tagf(tsubop.getSubField<PVScalar>("userTag"));
 
-    epicsTS.secPastEpoch = secf ? secf->getAs<int64>() : 0;
-    epicsTS.nsec = nsecf ? nsecf->getAs<int32>() : 0;
-
-    if(epicsTS.secPastEpoch > POSIX_TIME_AT_EPICS_EPOCH)
-        epicsTS.secPastEpoch -= POSIX_TIME_AT_EPICS_EPOCH;
+    int64 sec = secf ? secf->getAs<int64>() : 0;
+    // only times after the EPICS epoch which epicsTimeStamp can hold
+    if(sec > POSIX_TIME_AT_EPICS_EPOCH && sec - POSIX_TIME_AT_EPICS_EPOCH <= int64(0xffffffffu))
+        epicsTS.secPastEpoch = epicsUInt32(sec - POSIX_TIME_AT_EPICS_EPOCH);
     else
         epicsTS.secPastEpoch = 0;
+    epicsTS.nsec = nsecf ? nsecf->getAs<int32>() : 0;
 
     epicsTimeToStrftime(timeText, sizeof(timeText), "%Y-%m-%d %H:%M:%S.%03f", &epicsTS);
     strm <<std::setw(24) <<std::left <<timeText <<' ';
-- 
2.43.0


From 6465ba9c93597a157b9b7447cedfc66c5952dd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 51/78] fix: printing a time_t or enum_t with a string or
 boolean in place of a number threw

---
 src/factory/printer.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/factory/printer.cpp b/src/factory/printer.cpp
index 174b300..a5bf10d 100644
--- a/src/factory/printer.cpp
+++ b/src/factory/printer.cpp
@@ -93,6 +93,15 @@ bool useEscapes(std::ostream& strm) {
 }
 
 
+// sub-field which can be converted to a number, if there is one
+PVScalar::const_shared_pointer numericField(const PVStructure& top, const char *name)
+{
+    PVScalar::const_shared_pointer fld(top.getSubField<PVScalar>(name));
+    if(fld && !ScalarTypeFunc::isNumeric(fld->getScalar()->getScalarType()))
+        fld.reset();
+    return fld;
+}
+
 void printAlarmTx(std::ostream& strm, const PVStructure& sub)
 {
     PVScalar::const_shared_pointer pvSeverity(sub.getSubField<PVInt>("severity"));
@@ -137,9 +146,9 @@ void printTimeTx(std::ostream& strm, const PVStructure& tsubop)
     char timeText[32];
     epicsTimeStamp epicsTS;
 
-    PVScalar::const_shared_pointer secf(tsubop.getSubField<PVScalar>("secondsPastEpoch")),
-                                   nsecf(tsubop.getSubField<PVScalar>("nanoseconds")),
-                                   tagf(tsubop.getSubField<PVScalar>("userTag"));
+    PVScalar::const_shared_pointer secf(numericField(tsubop, "secondsPastEpoch")),
+                                   nsecf(numericField(tsubop, "nanoseconds")),
+                                   tagf(numericField(tsubop, "userTag"));
 
     int64 sec = secf ? secf->getAs<int64>() : 0;
     // only times after the EPICS epoch which epicsTimeStamp can hold
@@ -174,7 +183,7 @@ bool printEnumT(std::ostream& strm, const PVStructure& top, bool fromtop)
     } else {
         value = std::tr1::static_pointer_cast<const PVStructure>(top.shared_from_this());
     }
-    PVScalar::const_shared_pointer idx(value->getSubField<PVScalar>("index"));
+    PVScalar::const_shared_pointer idx(numericField(*value, "index"));
     PVStringArray::const_shared_pointer choices(value->getSubField<PVStringArray>("choices"));
     if(!idx || !choices) return false;
 
-- 
2.43.0


From 4a0868f9608798622ecccdc9f7e2f29f564739e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 52/78] fix: sub-array copy read out of bounds for a bad source
 offset, and padded the destination up to its capacity

---
 src/factory/pvSubArrayCopy.cpp | 60 +++++++++++++++++++---------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/src/factory/pvSubArrayCopy.cpp b/src/factory/pvSubArrayCopy.cpp
index 35b03ed..7e6dccb 100644
--- a/src/factory/pvSubArrayCopy.cpp
+++ b/src/factory/pvSubArrayCopy.cpp
@@ -17,6 +17,27 @@ using std::cout;
 using std::endl;
 using std::string;
 
+namespace {
+
+// check a request, and compute the length of the destination after it
+size_t newLength(
+    size_t fromLength, size_t fromOffset, size_t fromStride,
+    size_t toLength, size_t toOffset, size_t toStride,
+    size_t count)
+{
+    if(fromStride<1 || toStride<1) throw std::invalid_argument("stride must be >=1");
+    if(count==0) return toLength;
+    if(fromOffset>=fromLength || count-1>(fromLength-1-fromOffset)/fromStride)
+        throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
+    const size_t max = size_t(-1)-1;
+    if(toOffset>max || count-1>(max-toOffset)/toStride)
+        throw std::invalid_argument("pvSubArrayCopy pvTo length error");
+    size_t length = toOffset + (count-1)*toStride + 1;
+    return length>toLength ? length : toLength;
+}
+
+}
+
 namespace epics { namespace pvData {
 
 template<typename T>
@@ -30,18 +51,13 @@ void copy(
     size_t count)
 {
     if(pvTo.isImmutable()) throw std::invalid_argument("pvSubArrayCopy: pvTo is immutable");
-    if(fromStride<1 || toStride<1) throw std::invalid_argument("stride must be >=1");
-    size_t fromLength = pvFrom.getLength();
-    size_t maxcount = (fromLength -fromOffset + fromStride -1)/fromStride;
-    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
-    size_t newLength = toOffset + count*toStride;
-    size_t capacity = pvTo.getCapacity();
-    if(newLength>capacity) capacity = newLength;
-    shared_vector<T> temp(capacity);
+    size_t length = newLength(pvFrom.getLength(), fromOffset, fromStride,
+                              pvTo.getLength(), toOffset, toStride, count);
+    shared_vector<T> temp(length);
     typename PVValueArray<T>::const_svector vecFrom = pvFrom.view();
     typename PVValueArray<T>::const_svector vecTo = pvTo.view();
     for(size_t i=0; i<pvTo.getLength(); ++i) temp[i] = vecTo[i];
-    for(size_t i=pvTo.getLength(); i< capacity; ++i) temp[i] = T();
+    for(size_t i=pvTo.getLength(); i<length; ++i) temp[i] = T();
     for(size_t i=0; i<count; ++i) temp[i*toStride + toOffset] = vecFrom[i*fromStride+fromOffset];
     shared_vector<const T> temp2(freeze(temp));
     pvTo.replace(temp2);
@@ -162,24 +178,19 @@ void copy(
     if(pvTo.isImmutable()) {
         throw std::logic_error("pvSubArrayCopy  pvTo is immutable");
     }
-    if(pvFromStride<1 || toStride<1) throw std::invalid_argument("stride must be >=1");
     StructureArrayConstPtr pvFromStructure = pvFrom.getStructureArray();
     StructureArrayConstPtr toStructure = pvTo.getStructureArray();
     if(pvFromStructure->getStructure()!=toStructure->getStructure()) {
         throw std::invalid_argument(
             "pvSubArrayCopy structureArray pvTo and pvFrom have different structures");
     }
-    size_t pvFromLength = pvFrom.getLength();
-    size_t maxcount = (pvFromLength -pvFromOffset + pvFromStride -1)/pvFromStride;
-    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
-    size_t newLength = toOffset + count*toStride;
-    size_t capacity = pvTo.getCapacity();
-    if(newLength>capacity) capacity = newLength;
-    shared_vector<PVStructurePtr> temp(capacity);
+    size_t length = newLength(pvFrom.getLength(), pvFromOffset, pvFromStride,
+                              pvTo.getLength(), toOffset, toStride, count);
+    shared_vector<PVStructurePtr> temp(length);
     PVValueArray<PVStructurePtr>::const_svector vecFrom = pvFrom.view();
     PVValueArray<PVStructurePtr>::const_svector vecTo = pvTo.view();
     for(size_t i=0; i<pvTo.getLength(); ++i) temp[i] = vecTo[i];
-    for(size_t i=pvTo.getLength(); i< capacity; ++i)
+    for(size_t i=pvTo.getLength(); i<length; ++i)
         temp[i] = getPVDataCreate()->createPVStructure(toStructure->getStructure());
     for(size_t i=0; i<count; ++i) temp[i*toStride + toOffset] = vecFrom[i*pvFromStride+pvFromOffset];
     shared_vector<const PVStructurePtr> temp2(freeze(temp));
@@ -198,24 +209,19 @@ void copy(
     if(pvTo.isImmutable()) {
         throw std::logic_error("pvSubArrayCopy  pvTo is immutable");
     }
-    if(pvFromStride<1 || toStride<1) throw std::invalid_argument("stride must be >=1");
     UnionArrayConstPtr pvFromUnion = pvFrom.getUnionArray();
     UnionArrayConstPtr toUnion = pvTo.getUnionArray();
     if(pvFromUnion->getUnion()!=toUnion->getUnion()) {
         throw std::invalid_argument(
             "pvSubArrayCopy unionArray pvTo and pvFrom have different unions");
     }
-    size_t pvFromLength = pvFrom.getLength();
-    size_t maxcount = (pvFromLength -pvFromOffset + pvFromStride -1)/pvFromStride;
-    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
-    size_t newLength = toOffset + count*toStride;
-    size_t capacity = pvTo.getCapacity();
-    if(newLength>capacity) capacity = newLength;
-    shared_vector<PVUnionPtr> temp(capacity);
+    size_t length = newLength(pvFrom.getLength(), pvFromOffset, pvFromStride,
+                              pvTo.getLength(), toOffset, toStride, count);
+    shared_vector<PVUnionPtr> temp(length);
     PVValueArray<PVUnionPtr>::const_svector vecFrom = pvFrom.view();
     PVValueArray<PVUnionPtr>::const_svector vecTo = pvTo.view();
     for(size_t i=0; i<pvTo.getLength(); ++i) temp[i] = vecTo[i];
-    for(size_t i=pvTo.getLength(); i< capacity; ++i)
+    for(size_t i=pvTo.getLength(); i<length; ++i)
         temp[i] = getPVDataCreate()->createPVUnion(toUnion->getUnion());
     for(size_t i=0; i<count; ++i) temp[i*toStride + toOffset] = vecFrom[i*pvFromStride+pvFromOffset];
     shared_vector<const PVUnionPtr> temp2(freeze(temp));
-- 
2.43.0


From 8dcb179df0b1a377c22ecd43578bcde16215be17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:22 +0000
Subject: [PATCH 53/78] fix: Convert::fromString() of an array failed for
 brackets, more than two elements, or fewer than before

---
 src/factory/Convert.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index af39b21..09dff00 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -40,7 +40,7 @@ static std::vector<string> split(const string& commaSeparatedList) {
     index=0;
     for(size_t i=0; i<numValues; i++) {
         size_t pos = commaSeparatedList.find(',',index);
-        string value = commaSeparatedList.substr(index,pos);
+        string value = commaSeparatedList.substr(index,pos==string::npos ? pos : pos-index);
         valueList[i] = value;
         index = pos +1;
     }
@@ -99,16 +99,18 @@ size_t Convert::fromString(PVStructurePtr const &pvStructure, StringArray const
 
 size_t Convert::fromString(PVScalarArrayPtr const &pv, string from)
 {
-   if(from[0]=='[' && from[from.length()]==']') {
-        size_t offset = from.rfind(']');
-        from = from.substr(1, offset);
+    std::vector<string> valueList;
+    if(from.length()>=2 && from[0]=='[' && from[from.length()-1]==']') {
+        from = from.substr(1, from.length()-2);
+        if(!from.empty())
+            valueList = split(from);
+    } else {
+        valueList = split(from);
     }
-    std::vector<string> valueList(split(from));
-    size_t length = valueList.size();
-    size_t num = fromStringArray(pv,0,length,valueList,0);
-    if(num<length) length = num;
-    pv->setLength(length);
-    return length;
+    PVStringArray::svector data(valueList.size());
+    std::copy(valueList.begin(), valueList.end(), data.begin());
+    pv->putFrom<string>(freeze(data));
+    return valueList.size();
 }
 
 size_t Convert::fromStringArray(PVScalarArrayPtr const &pv,
-- 
2.43.0


From 6d82bd73971e019a7bfb9dbb44a38ca9dfad8477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 54/78] fix: Convert::fromString() of a structure skipped
 strings after an array, and read beyond the last one

---
 src/factory/Convert.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index 09dff00..25a3d02 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -76,13 +76,12 @@ size_t Convert::fromString(PVStructurePtr const &pvStructure, StringArray const
             }
             else if(type==scalarArray) {
                 PVScalarArrayPtr pv = static_pointer_cast<PVScalarArray>(fieldField);
-                size_t count = fromString(pv, from[fromStartIndex]);
-                processed += count;
-                fromStartIndex += count;
+                fromString(pv, from.at(fromStartIndex++));
+                processed++;
             }
             else if(type==scalar) {
                 PVScalarPtr pv = static_pointer_cast<PVScalar>(fieldField);
-                fromString(pv, from[fromStartIndex++]);
+                fromString(pv, from.at(fromStartIndex++));
                 processed++;
             }
             else {
-- 
2.43.0


From 88207c180ffdf8d939ad2b1c3e76b1e8e616c0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:23 +0000
Subject: [PATCH 55/78] fix: Convert string array transfers ignored the
 destination offset or read out of bounds

---
 src/factory/Convert.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index 25a3d02..0a4b877 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -121,7 +121,8 @@ size_t Convert::fromStringArray(PVScalarArrayPtr const &pv,
 
     if(offset==0 && length>=alen) {
         // replace all existing elements
-        assert(from.size()>=fromOffset+length);
+        if(fromOffset>from.size() || length>from.size()-fromOffset)
+            throw std::invalid_argument("fromStringArray: not enough strings");
 
         PVStringArray::svector data(length);
         std::copy(from.begin()+fromOffset,
@@ -145,9 +146,11 @@ size_t Convert::toStringArray(PVScalarArrayPtr const & pv,
     PVStringArray::const_svector data;
     pv->getAs<string>(data);
     data.slice(offset, length);
+    if(toOffset > to.max_size()-data.size())
+        throw std::length_error("toStringArray: offset too large");
     if(toOffset+data.size() > to.size())
         to.resize(toOffset+data.size());
-    std::copy(data.begin()+toOffset, data.end(), to.begin());
+    std::copy(data.begin(), data.end(), to.begin()+toOffset);
     return data.size();
 }
 
-- 
2.43.0


From 76f25e152e3b50b9a45bd2b7288ba63f035259e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 56/78] fix: replace() and putFrom() of an immutable array
 changed it

---
 src/factory/PVDataCreateFactory.cpp | 11 ++++++++++-
 src/factory/PVStructureArray.cpp    |  2 +-
 src/factory/PVUnionArray.cpp        |  2 +-
 src/pv/pvData.h                     | 25 +++++++++++++++++++------
 4 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 68fa67d..3639cb3 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -286,6 +286,15 @@ void PVValueArray<T>::setLength(size_t length)
 
 template<typename T>
 void PVValueArray<T>::replace(const const_svector& next)
+{
+    if (this->isImmutable())
+        THROW_EXCEPTION2(std::logic_error, "immutable");
+
+    replaceUnchecked(next);
+}
+
+template<typename T>
+void PVValueArray<T>::replaceUnchecked(const const_svector& next)
 {
     this->checkLength(next.size());
 
@@ -462,7 +471,7 @@ void PVValueArray<T>::_getAsVoid(epics::pvData::shared_vector<const void>& out)
 template<typename T>
 void PVValueArray<T>::_putFromVoid(const epics::pvData::shared_vector<const void>& in)
 {
-    this->replace(shared_vector_convert<const T>(in));
+    replaceUnchecked(shared_vector_convert<const T>(in));
 }
 
 // Factory
diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index 56c9ce9..c2cdffa 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -256,7 +256,7 @@ void PVStructureArray::copyUnchecked(const PVStructureArray& from)
     if (this == &from)
         return;
 
-    replace(from.view());
+    replaceUnchecked(from.view());
 }
 
 }}
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index 62aef68..2f29575 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -256,7 +256,7 @@ void PVUnionArray::copyUnchecked(const PVUnionArray& from)
     if (this == &from)
         return;
 
-    replace(from.view());
+    replaceUnchecked(from.view());
 }
 
 
diff --git a/src/pv/pvData.h b/src/pv/pvData.h
index 2994172..753d940 100644
--- a/src/pv/pvData.h
+++ b/src/pv/pvData.h
@@ -665,6 +665,8 @@ public:
     template<typename T>
     inline void putFrom(const shared_vector<const T>& inp)
     {
+        if (isImmutable())
+            throw std::invalid_argument("destination is immutable");
         shared_vector<const void> temp(static_shared_vector_cast<const void>(inp));
         _putFromVoid(temp);
     }
@@ -1232,6 +1234,7 @@ protected:
     virtual void _putFromVoid(const epics::pvData::shared_vector<const void>& in) OVERRIDE FINAL;
 
     explicit PVValueArray(ScalarArrayConstPtr const & scalar);
+    void replaceUnchecked(const const_svector& next);
     const_svector value;
     friend class PVDataCreate;
     EPICS_NOT_COPYABLE(PVValueArray)
@@ -1308,9 +1311,9 @@ public:
     virtual const_svector view() const OVERRIDE FINAL { return value; }
     virtual void swap(const_svector &other) OVERRIDE FINAL;
     virtual void replace(const const_svector &other) OVERRIDE FINAL {
-        checkLength(other.size());
-        value = other;
-        PVField::postPut();
+        if (this->isImmutable())
+            throw std::logic_error("immutable");
+        replaceUnchecked(other);
     }
 
     virtual void serialize(ByteBuffer *pbuffer,
@@ -1329,6 +1332,11 @@ public:
 protected:
      PVValueArray(StructureArrayConstPtr const & structureArray);
 private:
+    void replaceUnchecked(const const_svector &other) {
+        checkLength(other.size());
+        value = other;
+        PVField::postPut();
+    }
     StructureArrayConstPtr structureArray;
     const_svector value;
     friend class PVDataCreate;
@@ -1407,9 +1415,9 @@ public:
     virtual const_svector view() const OVERRIDE { return value; }
     virtual void swap(const_svector &other) OVERRIDE;
     virtual void replace(const const_svector &other) OVERRIDE FINAL {
-        checkLength(other.size());
-        value = other;
-        PVField::postPut();
+        if (this->isImmutable())
+            throw std::logic_error("immutable");
+        replaceUnchecked(other);
     }
 
     virtual void serialize(ByteBuffer *pbuffer,
@@ -1428,6 +1436,11 @@ public:
 protected:
     explicit PVValueArray(UnionArrayConstPtr const & unionArray);
 private:
+    void replaceUnchecked(const const_svector &other) {
+        checkLength(other.size());
+        value = other;
+        PVField::postPut();
+    }
     UnionArrayConstPtr unionArray;
     const_svector value;
     friend class PVDataCreate;
-- 
2.43.0


From 906a07f0feed61e92a7777f57a895b3b65538028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:31 +0000
Subject: [PATCH 57/78] fix: copying a structure changed immutable fields
 inside it

---
 src/factory/PVField.cpp     |  5 ++++-
 src/factory/PVStructure.cpp | 19 ++++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVField.cpp b/src/factory/PVField.cpp
index 676e0bb..28f1d3a 100644
--- a/src/factory/PVField.cpp
+++ b/src/factory/PVField.cpp
@@ -187,7 +187,10 @@ void PVField::copy(const PVField& from)
     if (getField() != from.getField())
         throw std::invalid_argument("field types do not match");
 
-    copyUnchecked(from);
+    if (getField()->getType()==structure)
+        static_cast<PVStructure*>(this)->copy(static_cast<const PVStructure&>(from));
+    else
+        copyUnchecked(from);
 }
 
 void PVField::copyUnchecked(const PVField& from)
diff --git a/src/factory/PVStructure.cpp b/src/factory/PVStructure.cpp
index 46fbefd..0bdd148 100644
--- a/src/factory/PVStructure.cpp
+++ b/src/factory/PVStructure.cpp
@@ -328,9 +328,26 @@ std::ostream& PVStructure::dumpValue(std::ostream& o) const
 }
 
 
+static bool anyImmutable(const PVStructure& top)
+{
+    if(top.isImmutable())
+        return true;
+
+    PVFieldPtrArray const & fields = top.getPVFields();
+    for(size_t i = 0; i<fields.size(); i++) {
+        if(fields[i]->isImmutable())
+            return true;
+        if(fields[i]->getField()->getType()==structure
+                && anyImmutable(static_cast<const PVStructure&>(*fields[i])))
+            return true;
+    }
+    return false;
+}
+
 void PVStructure::copy(const PVStructure& from)
 {
-    if(isImmutable())
+    // nor may it contain a field which is
+    if(anyImmutable(*this))
         throw std::invalid_argument("destination is immutable");
 
     if(*getStructure() != *from.getStructure())
-- 
2.43.0


From fd6505aa040ab130042f59f0e1a62a6b09a6b666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 58/78] fix: Thread::Config::name() followed by << overwrote
 the name

---
 src/misc/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/thread.cpp b/src/misc/thread.cpp
index cca111d..a4ed784 100644
--- a/src/misc/thread.cpp
+++ b/src/misc/thread.cpp
@@ -68,7 +68,7 @@ Thread::Config::Config(std::function<void()>&& fn) {this->x_setdefault();this->r
 #endif
 
 Thread::Config& Thread::Config::name(const std::string& n)
-{ this->p_strm.str(n); return *this; }
+{ this->p_strm.str(std::string()); this->p_strm<<n; return *this; }
 
 Thread::Config& Thread::Config::prio(unsigned int p)
 { this->p_prio = p; return *this; }
-- 
2.43.0


From 718769eebec0b4d58b50df022347cd69efa7a0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 59/78] fix: Timer::close() raced with cancel() and
 isScheduled(), and stopped cancelled callbacks

---
 src/misc/timer.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 14a207b..a95df64 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -61,10 +61,6 @@ bool Timer::cancel(TimerCallbackPtr const &timerCallback)
 {
     Lock xx(mutex);
     if(!timerCallback->onList) return false;
-    if(!alive) {
-        timerCallback->onList = false;
-        return true;
-    }
     for(queue_t::iterator it(queue.begin()), end(queue.end()); it != end; ++it)
     {
         TimerCallbackPtr& cur = *it;
@@ -148,12 +144,17 @@ void Timer::close() {
     waitForWork.signal();
     thread.exitWait();
 
-    queue_t temp;
-    temp.swap(queue);
-
-    for(;!temp.empty(); temp.pop_front()) {
-        TimerCallbackPtr& head = temp.front();
-        head->onList = false;
+    while(true) {
+        TimerCallbackPtr head;
+        {
+            // may be concurrent with cancel()
+            Lock xx(mutex);
+            if(queue.empty())
+                break;
+            head.swap(queue.front());
+            head->onList = false;
+            queue.pop_front();
+        }
         head->timerStopped();
     }
 }
-- 
2.43.0


From cb3363ef59bebeff678f000e5d33a9ea7e37cfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 60/78] fix: a periodic callback could not cancel or
 re-schedule itself, and was not told of a close while it ran

---
 src/misc/pv/timer.h |  4 ++++
 src/misc/timer.cpp  | 24 +++++++++++++++++++++---
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/misc/pv/timer.h b/src/misc/pv/timer.h
index 83146d5..b7c82bb 100644
--- a/src/misc/pv/timer.h
+++ b/src/misc/pv/timer.h
@@ -99,6 +99,8 @@ public:
         double period);
     /**
      * cancel a callback.
+     * A call in progress is not interrupted, but a periodic callback
+     * will not be repeated.
      * @param timerCallback the timerCallback to cancel.
      * @returns true if the timer was queued, and now is cancelled
      */
@@ -125,6 +127,8 @@ private:
 
     mutable Mutex mutex;
     queue_t queue;
+    // periodic callback in progress, which is to be repeated
+    TimerCallbackPtr running;
     Event waitForWork;
     bool waiting;
     bool alive;
diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index a95df64..8a83246 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -60,7 +60,12 @@ void Timer::addElement(TimerCallbackPtr const & timerCallback)
 bool Timer::cancel(TimerCallbackPtr const &timerCallback)
 {
     Lock xx(mutex);
-    if(!timerCallback->onList) return false;
+    if(!timerCallback->onList) {
+        // too late to prevent the call in progress, but not to stop it from being repeated
+        if(running==timerCallback)
+            running.reset();
+        return false;
+    }
     for(queue_t::iterator it(queue.begin()), end(queue.end()); it != end; ++it)
     {
         TimerCallbackPtr& cur = *it;
@@ -104,6 +109,8 @@ void Timer::run()
             work.swap(queue.front());
             work->onList = false;
             queue.pop_front();
+            if(work->period > 0.0)
+                running = work;
 
             {
                 epicsGuardRelease<epicsMutex> U(G);
@@ -111,10 +118,12 @@ void Timer::run()
                 work->callback();
             }
 
-            if(work->period > 0.0 && alive) {
+            // repeat, unless cancelled, scheduled anew, or closed, since
+            if(running==work) {
                 work->timeToRun += work->period;
                 addElement(work);
             }
+            running.reset();
 
             // don't update 'now' until all expired jobs run
 
@@ -135,17 +144,22 @@ Timer::~Timer() {
 }
 
 void Timer::close() {
+    TimerCallbackPtr head;
     {
          Lock xx(mutex);
          if(!alive)
              return; // already closed
          alive = false;
+         // in progress, and now won't be repeated
+         head.swap(running);
     }
     waitForWork.signal();
     thread.exitWait();
 
+    if(head)
+        head->timerStopped();
+
     while(true) {
-        TimerCallbackPtr head;
         {
             // may be concurrent with cancel()
             Lock xx(mutex);
@@ -186,6 +200,10 @@ void Timer::schedulePeriodic(
             return;
         }
 
+        // if called while in progress, then this replaces the repetition
+        if(running==timerCallback)
+            running.reset();
+
         timerCallback->timeToRun = now + delay;
         timerCallback->period = period;
 
-- 
2.43.0


From 464dd174b9a8ba6c701457b7b0853ea1d4152648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 61/78] fix: fields held after their structure is gone referred
 back to it

---
 src/factory/PVStructure.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/factory/PVStructure.cpp b/src/factory/PVStructure.cpp
index 0bdd148..5bdd6d5 100644
--- a/src/factory/PVStructure.cpp
+++ b/src/factory/PVStructure.cpp
@@ -62,7 +62,14 @@ PVStructure::PVStructure(StructureConstPtr const & structurePtr,
     computeOffset(this);
 }
 
-PVStructure::~PVStructure() {}
+PVStructure::~PVStructure()
+{
+    // members which are still in use by others must not refer back to us
+    for(size_t i=0, numFields = pvFields.size(); i<numFields; i++) {
+        if(pvFields[i].get() && pvFields[i]->parent==this)
+            pvFields[i]->parent = NULL;
+    }
+}
 
 void PVStructure::setImmutable()
 {
-- 
2.43.0


From 9ce60dc7521480049061c7a775f22d77c1b4c349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 62/78] fix: createPVStructure(names, fields) read beyond a
 shorter list of fields, and a NULL field

---
 src/factory/PVDataCreateFactory.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 3639cb3..e25df79 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -693,8 +693,14 @@ PVStructurePtr PVDataCreate::createPVStructure(
         StringArray const & fieldNames,PVFieldPtrArray const & pvFields)
 {
      size_t num = fieldNames.size();
+     if(num!=pvFields.size())
+         throw std::invalid_argument("fieldNames and pvFields differ in size");
      FieldConstPtrArray fields(num);
-     for (size_t i=0;i<num;i++) fields[i] = pvFields[i]->getField();
+     for (size_t i=0;i<num;i++) {
+         if(!pvFields[i])
+             throw std::invalid_argument("Can't create a structure with a NULL field");
+         fields[i] = pvFields[i]->getField();
+     }
      StructureConstPtr structure = fieldCreate->createStructure(fieldNames,fields);
      PVStructurePtr pvStructure(new PVStructure(structure,pvFields));
      return pvStructure;
-- 
2.43.0


From e3537ad4d2ace2bd498ae98a91a6f00724f11e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 63/78] fix: epicsRefSnapshotCurrent() always returned an empty
 string

---
 src/misc/reftrack.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/misc/reftrack.cpp b/src/misc/reftrack.cpp
index 7c1a88a..5ca8f5b 100644
--- a/src/misc/reftrack.cpp
+++ b/src/misc/reftrack.cpp
@@ -270,7 +270,8 @@ char* epicsRefSnapshotCurrent()
         epics::RefSnapshot snap;
         snap.update();
         std::ostringstream strm;
-        strm<<snap;
+        // only non-zero deltas are printed
+        strm<<(snap - epics::RefSnapshot());
         std::string str = strm.str();
         char *ret = (char*)malloc(str.length()+1);
         if(ret)
-- 
2.43.0


From d05f754c78a379cdfd882899baeb251875488d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:59 +0000
Subject: [PATCH 64/78] fix: RefSnapshot::update() read counters unregistered
 meanwhile

---
 src/misc/reftrack.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/misc/reftrack.cpp b/src/misc/reftrack.cpp
index 5ca8f5b..fe89854 100644
--- a/src/misc/reftrack.cpp
+++ b/src/misc/reftrack.cpp
@@ -93,17 +93,14 @@ RefSnapshot::operator[](const std::string& name) const
 
 void RefSnapshot::update()
 {
-    refgbl_t::counters_t counters;
-    {
-        refgbl_setup();
-        Guard G(refgbl->lock);
-        counters = refgbl->counters; // copy
-    }
+    refgbl_setup();
+    // a counter may be free'd once unregistered
+    Guard G(refgbl->lock);
 
     counts.clear();
 
-    for(refgbl_t::counters_t::const_iterator it=counters.begin(),
-                                            end=counters.end();
+    for(refgbl_t::counters_t::const_iterator it=refgbl->counters.begin(),
+                                            end=refgbl->counters.end();
         it!=end; ++it)
     {
         size_t cnt = atomic::get(*it->second);
-- 
2.43.0


From bc0fceafae9ce753af617a0cc8033692ce146fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:18 +0000
Subject: [PATCH 65/78] fix: PVUnion::select() which failed to allocate left
 selector and value at odds

---
 src/factory/PVUnion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory/PVUnion.cpp b/src/factory/PVUnion.cpp
index 40c8b74..a9c8d21 100644
--- a/src/factory/PVUnion.cpp
+++ b/src/factory/PVUnion.cpp
@@ -70,8 +70,8 @@ PVFieldPtr PVUnion::select(int32 index)
         throw std::invalid_argument("index out of bounds");
 
     FieldConstPtr field = unionPtr->getField(index);
-    selector = index;
     value = pvDataCreate->createPVField(field);
+    selector = index;
 
     return value;
 }
-- 
2.43.0


From 4ee10bb351965e0726f2ecf3a0e7b61fded59eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 66/78] fix: debug::shared_ptr::swap() of two owners of one
 object keeps both listed

---
 src/misc/debugPtr.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/misc/debugPtr.cpp b/src/misc/debugPtr.cpp
index 3cd3210..dcf9caa 100644
--- a/src/misc/debugPtr.cpp
+++ b/src/misc/debugPtr.cpp
@@ -73,6 +73,8 @@ void shared_ptr_base::track_clear()
 
 void shared_ptr_base::swap(shared_ptr_base &o)
 {
+    // both already listed by the same tracker
+    if(track==o.track) return;
     // we cheat a bit here to avoid lock order, and to lock only twice
     if(track) {
         Guard G(track->mutex);
-- 
2.43.0


From d026d6b52b2f4c9e89594a98a8a512a2d6d13810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 67/78] fix: debug::shared_ptr made from a unique_ptr is
 tracked, and from NULL does not throw

---
 src/misc/pv/debugPtr.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 3ce0771..a7b3ae2 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -153,7 +153,12 @@ public:
 
     // takeover from unique_ptr
     template<typename A>
-    shared_ptr(std::unique_ptr<A>&& a) : shared_ptr_base(), real(a.release()) {track_new();}
+    shared_ptr(std::unique_ptr<A>&& a) : shared_ptr_base() {
+        A* raw = a.get();
+        real = std::move(a);
+        track_new(raw);
+        do_enable_shared_from_this(*this, raw);
+    }
 
     ~shared_ptr() {}
 
@@ -311,6 +316,7 @@ do_enable_shared_from_this(const shared_ptr<Store>& dest,
                             enable_shared_from_this<Actual>* self
                             )
 {
+    if(!self) return; // owner of a NULL pointer
     shared_ptr<Actual> actual(dynamic_pointer_cast<Actual>(dest));
     if(!actual)
         throw std::logic_error("epics::debug::enabled_shared_from_this fails");
-- 
2.43.0


From d63f1d6e742ea8371110dc9bd41674af185b87dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 68/78] fix: debug::shared_ptr assignment and reset() release
 the previous object last

---
 src/misc/pv/debugPtr.h | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index a7b3ae2..3d93b01 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -164,6 +164,10 @@ public:
 
     shared_ptr& operator=(const shared_ptr& o) {
         if(this!=&o) {
+            // the previous object might (indirectly) own 'o' or *this,
+            // so it must be released last.  eg. "head = head->next"
+            real_type prev;
+            prev.swap(real);
             real = o.real;
             track_assign(o);
         }
@@ -171,20 +175,22 @@ public:
     }
     template<typename A>
     shared_ptr& operator=(const shared_ptr<A>& o) {
-        if(get()!=o.get()) {
-            real = o.real;
-            track_assign(o);
-        }
+        real_type prev;
+        prev.swap(real);
+        real = o.real;
+        track_assign(o);
         return *this;
     }
 
-    void reset() noexcept { real.reset(); track_clear(); }
+    void reset() noexcept {
+        real_type prev; // released last
+        prev.swap(real);
+        track_clear();
+    }
     template<typename A, class ... Args>
     void reset(A* a, Args ... args)
     {
-        real.reset(a, args...);
-        track_new(a);
-        do_enable_shared_from_this(*this, a);
+        shared_ptr(a, args...).swap(*this);
     }
     void swap(shared_ptr &o) noexcept
     {
-- 
2.43.0


From 43b7cda053acc9bbce9840b9c160cd1a0e3dd45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 69/78] fix: debug::shared_ptr from a failed cast or lock() is
 not listed as an owner

---
 src/misc/pv/debugPtr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 3d93b01..21e123d 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -126,7 +126,7 @@ class shared_ptr : public shared_ptr_base {
 
     // ctor for casts
     shared_ptr(const real_type& r, const ptr_base::track_t& t)
-        :shared_ptr_base(t), real(r)
+        :shared_ptr_base(r ? t : track_t()), real(r) // not an owner if a cast or lock() has failed
     {track_new();}
 public:
     typedef typename real_type::element_type element_type;
-- 
2.43.0


From a543c398607a0227b0832ce2720fb9492640d309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 70/78] fix: copying an object does not copy its
 debug::enable_shared_from_this

---
 src/misc/pv/debugPtr.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 21e123d..fab8780 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -311,6 +311,11 @@ class enable_shared_from_this {
                                 enable_shared_from_this<Actual>* self
                                 );
 public:
+    enable_shared_from_this() {}
+    // a copy is a different object
+    enable_shared_from_this(const enable_shared_from_this&) {}
+    enable_shared_from_this& operator=(const enable_shared_from_this&) { return *this; }
+
     shared_ptr<Base> shared_from_this() const {
         return shared_ptr<Base>(xxInternalSelf);
     }
-- 
2.43.0


From d622e200c916d9a12d4425940fc0f750cce0db76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 71/78] fix: show_refs() does not race with the stack being
 stored by a new debug::shared_ptr

---
 src/misc/debugPtr.cpp | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/misc/debugPtr.cpp b/src/misc/debugPtr.cpp
index dcf9caa..ab35260 100644
--- a/src/misc/debugPtr.cpp
+++ b/src/misc/debugPtr.cpp
@@ -27,11 +27,11 @@ struct tracker {
 
 void shared_ptr_base::track_new()
 {
+    snap_stack(); // before we become visible through show_refs()
     if(track) {
         Guard G(track->mutex);
         track->refs.insert(this);
     }
-    snap_stack();
 }
 
 // create new tracker if ptr!=nullptr, otherwise clear
@@ -40,10 +40,8 @@ void shared_ptr_base::track_new(const void* ptr)
     track_clear();
     if(ptr){
         track.reset(new tracker);
-        Guard G(track->mutex);
-        track->refs.insert(this);
     }
-    snap_stack();
+    track_new();
 }
 
 void shared_ptr_base::track_assign(const shared_ptr_base &o)
@@ -51,11 +49,7 @@ void shared_ptr_base::track_assign(const shared_ptr_base &o)
     if(track!=o.track) {
         track_clear();
         track = o.track;
-        if(track) {
-            Guard G(track->mutex);
-            track->refs.insert(this);
-        }
-        snap_stack();
+        track_new();
     }
 }
 
@@ -75,21 +69,18 @@ void shared_ptr_base::swap(shared_ptr_base &o)
 {
     // both already listed by the same tracker
     if(track==o.track) return;
-    // we cheat a bit here to avoid lock order, and to lock only twice
     if(track) {
         Guard G(track->mutex);
-        track->refs.insert(&o);
         track->refs.erase(this);
     }
-    track.swap(o.track);
-    if(track) {
-        Guard G(track->mutex);
-        track->refs.insert(this);
-        track->refs.erase(&o);
+    if(o.track) {
+        Guard G(o.track->mutex);
+        o.track->refs.erase(&o);
     }
+    track.swap(o.track);
     //TODO: keep original somehow???
-    snap_stack();
-    o.snap_stack();
+    track_new();
+    o.track_new();
 }
 
 void shared_ptr_base::snap_stack()
-- 
2.43.0


From d3c39af081da214d01e129a402f02e1e0431789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 72/78] fix: debug::shared_ptr::show_refs() leaves the base of
 the stream alone

---
 src/misc/debugPtr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/debugPtr.cpp b/src/misc/debugPtr.cpp
index ab35260..df71633 100644
--- a/src/misc/debugPtr.cpp
+++ b/src/misc/debugPtr.cpp
@@ -123,7 +123,7 @@ void shared_ptr_base::show_stack(std::ostream& strm) const
     {
         strm<<": ";
         for(int i=0; i<m_depth; i++) {
-            strm<<std::hex<<m_stack[i]<<" ";
+            strm<<m_stack[i]<<" ";
         }
     }
 #endif
-- 
2.43.0


From 5fa7eb1ec5675fe90fd64756d949c0c6ef4437d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:39 +0000
Subject: [PATCH 73/78] fix: an OK status received over an OK status with a
 message clears the message

---
 src/misc/status.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/misc/status.cpp b/src/misc/status.cpp
index 4c86b1e..4f7f543 100644
--- a/src/misc/status.cpp
+++ b/src/misc/status.cpp
@@ -64,13 +64,10 @@ void Status::deserialize(ByteBuffer *buffer, DeserializableControl *flusher)
     int8 typeCode = buffer->getByte();
     if (typeCode == (int8)-1)
     {
-       // in most of the cases status will be OK, we statistically optimize
-       if (m_statusType != STATUSTYPE_OK)
-       {
-           m_statusType = STATUSTYPE_OK;
-           m_message.clear();
-           m_stackDump.clear();
-       }
+       m_statusType = STATUSTYPE_OK;
+       // also an OK status may have been received with a message
+       m_message.clear();
+       m_stackDump.clear();
     }
     else
     {
-- 
2.43.0


From 9120a0fbf42a0ea6af7fc7b73222e387664567f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:39 +0000
Subject: [PATCH 74/78] fix: a Status which can not be decoded completely keeps
 its former content

---
 src/misc/status.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/misc/status.cpp b/src/misc/status.cpp
index 4f7f543..f2bb723 100644
--- a/src/misc/status.cpp
+++ b/src/misc/status.cpp
@@ -73,9 +73,12 @@ void Status::deserialize(ByteBuffer *buffer, DeserializableControl *flusher)
     {
         if (typeCode < STATUSTYPE_OK || typeCode > STATUSTYPE_FATAL)
             throw std::runtime_error("invalid status type encoding");
+        // all or nothing, either string may fail to arrive
+        string message(SerializeHelper::deserializeString(buffer, flusher));
+        string stackDump(SerializeHelper::deserializeString(buffer, flusher));
         m_statusType = (StatusType)typeCode;
-        m_message = SerializeHelper::deserializeString(buffer, flusher);
-        m_stackDump = SerializeHelper::deserializeString(buffer, flusher);
+        m_message.swap(message);
+        m_stackDump.swap(stackDump);
     }
 }
 
-- 
2.43.0


From e98093081bf7655157b6d3c250455a5e7d7418b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:08 +0000
Subject: [PATCH 75/78] fix: a copy of a BaseException does not tell where the
 original was thrown

---
 src/misc/pv/epicsException.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/misc/pv/epicsException.h b/src/misc/pv/epicsException.h
index f32cc6f..fefdaa5 100644
--- a/src/misc/pv/epicsException.h
+++ b/src/misc/pv/epicsException.h
@@ -209,6 +209,15 @@ public:
      */
     explicit BaseException(const std::string& msg) : std::logic_error(msg) {}
 
+    // The text made by what() tells where the other was thrown, so isn't copied.
+    BaseException(const BaseException& o) : std::logic_error(o) {}
+    BaseException& operator=(const BaseException& o)
+    {
+        std::logic_error::operator=(o);
+        base_msg.clear();
+        return *this;
+    }
+
     /**
      * Destructor.
      */
-- 
2.43.0


From 5aae8e5938ca7799c182507ed1651a99e858da56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:46 +0000
Subject: [PATCH 76/78] fix: showing where an exception was thrown survives
 backtrace_symbols() running out of memory

---
 src/misc/epicsException.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/misc/epicsException.cpp b/src/misc/epicsException.cpp
index b19bb82..6131e99 100644
--- a/src/misc/epicsException.cpp
+++ b/src/misc/epicsException.cpp
@@ -46,7 +46,8 @@ ExceptionMixin::show() const
 
         char **symbols=backtrace_symbols(m_stack, m_depth);
 
-        for(int i=0; i<m_depth; i++) {
+        // NULL when out of memory
+        for(int i=0; symbols && i<m_depth; i++) {
             out<<symbols[i]<<"\n";
         }
 
-- 
2.43.0


From 46b0e6a3ed01ea9ba32a32bba506d74eebf9fda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:37 +0000
Subject: [PATCH 77/78] fix: a bit set larger than the buffer of the transport
 can be sent and received

---
 src/misc/bitSet.cpp | 49 ++++++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/misc/bitSet.cpp b/src/misc/bitSet.cpp
index 862add6..a4f99e3 100644
--- a/src/misc/bitSet.cpp
+++ b/src/misc/bitSet.cpp
@@ -325,42 +325,49 @@ namespace epics { namespace pvData {
             len++;
 
         SerializeHelper::writeSize(len, buffer, flusher);
-        flusher->ensureBuffer(len);
 
+        // word by word as the whole may be larger than the buffer
         n = len / 8;
-        for (uint32 i = 0; i < n; i++)
+        for (uint32 i = 0; i < n; i++) {
+            if (buffer->getRemaining() < BYTES_PER_WORD)
+                flusher->ensureBuffer(BYTES_PER_WORD);
             buffer->putLong(words[i]);
+        }
 
-        if (n < words.size())
+        if (n < words.size()) {
+            if (buffer->getRemaining() < BYTES_PER_WORD)
+                flusher->ensureBuffer(BYTES_PER_WORD);
             for (uint64 x = words[words.size() - 1]; x != 0; x >>= 8)
                 buffer->putByte((int8) (x & 0xff));
+        }
     }
 
     void BitSet::deserialize(ByteBuffer* buffer, DeserializableControl* control) {
 
-        uint32 bytes = static_cast<uint32>(SerializeHelper::readSize(buffer, control)); // in bytes
-
-        size_t wordsInUse = (bytes + 7) / BYTES_PER_WORD;
+        size_t bytes = SerializeHelper::readSize(buffer, control); // in bytes
+        if (bytes == (size_t)-1)
+            throw std::runtime_error("a bit set can not be null");
 
+        // word by word as the whole may be larger than the buffer.
         // may throw, so before changing anything
-        if (wordsInUse != 0)
-            control->ensureData(bytes);
-
-        words.resize(wordsInUse);
+        words_t temp;
 
-        if (wordsInUse == 0)
-            return;
-
-        uint32 i = 0;
-        uint32 longs = bytes / 8;
-        while (i < longs)
-            words[i++] = buffer->getLong();
+        size_t longs = bytes / 8;
+        for (size_t i = 0; i < longs; i++) {
+            control->ensureData(BYTES_PER_WORD);
+            temp.push_back(buffer->getLong());
+        }
 
-        for (uint32 j = i; j < wordsInUse; j++)
-            words[j] = 0;
+        size_t remaining = bytes - longs * 8;
+        if (remaining != 0) {
+            control->ensureData(remaining);
+            uint64 x = 0;
+            for (size_t j = 0; j < remaining; j++)
+                x |= (buffer->getByte() & 0xffULL) << (8 * j);
+            temp.push_back(x);
+        }
 
-        for (uint32 remaining = (bytes - longs * 8), j = 0; j < remaining; j++)
-            words[i] |= (buffer->getByte() & 0xffLL) << (8 * j);
+        words.swap(temp);
 
         recalculateWordsInUse(); // Sender shouldn't add extra zero bytes, but don't fail it it does
     }
-- 
2.43.0


From 8b7698331da006203fe0b12e8943d2dd4e1404e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:22 +0000
Subject: [PATCH 78/78] fix: parsing JSON arrays takes time in proportion to
 their length

---
 src/json/parseany.cpp      |  4 ++++
 src/misc/pv/sharedVector.h | 10 ++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/json/parseany.cpp b/src/json/parseany.cpp
index f32a149..58dbe73 100644
--- a/src/json/parseany.cpp
+++ b/src/json/parseany.cpp
@@ -70,6 +70,7 @@ int jtree_boolean(void * ctx, int boolVal)
             if(self->arr.size()>0 && self->arr.original_type()!=pvd::pvBoolean)
                 throw std::runtime_error("Mixed type array not supported");
             pvd::shared_vector<pvd::boolean> arr(pvd::static_shared_vector_cast<pvd::boolean>(self->arr));
+            self->arr.clear(); // drop extra ref so that push_back() does not copy
             arr.push_back(boolVal);
             self->arr = pvd::static_shared_vector_cast<void>(arr);
             break;
@@ -96,6 +97,7 @@ int jtree_integer(void * ctx, integer_arg integerVal)
             if(self->arr.size()>0 && self->arr.original_type()!=pvd::pvLong)
                 throw std::runtime_error("Mixed type array not supported");
             pvd::shared_vector<pvd::int64> arr(pvd::static_shared_vector_cast<pvd::int64>(self->arr));
+            self->arr.clear(); // drop extra ref so that push_back() does not copy
             arr.push_back(integerVal);
             self->arr = pvd::static_shared_vector_cast<void>(arr);
             break;
@@ -122,6 +124,7 @@ int jtree_double(void * ctx, double doubleVal)
             if(self->arr.size()>0 && self->arr.original_type()!=pvd::pvDouble)
                 throw std::runtime_error("Mixed type array not supported");
             pvd::shared_vector<double> arr(pvd::static_shared_vector_cast<double>(self->arr));
+            self->arr.clear(); // drop extra ref so that push_back() does not copy
             arr.push_back(doubleVal);
             self->arr = pvd::static_shared_vector_cast<void>(arr);
             break;
@@ -150,6 +153,7 @@ int jtree_string(void * ctx, const unsigned char * stringVal,
             if(self->arr.size()>0 && self->arr.original_type()!=pvd::pvString)
                 throw std::runtime_error("Mixed type array not supported");
             pvd::shared_vector<std::string> arr(pvd::static_shared_vector_cast<std::string>(self->arr));
+            self->arr.clear(); // drop extra ref so that push_back() does not copy
             arr.push_back(sval);
             self->arr = pvd::static_shared_vector_cast<void>(arr);
             break;
diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 29f22b0..0e9b9e8 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -387,7 +387,10 @@ public:
         :base_t(std::tr1::static_pointer_cast<E>(src.dataPtr()),
                 src.dataOffset()/sizeof(E),
                 src.dataCount()/sizeof(E))
-    {}
+    {
+        // room for push_back() is not lost
+        this->m_total = src.dataTotal()/sizeof(E);
+    }
 
 
     shared_vector(shared_vector<typename base_t::_E_non_const>& O,
@@ -712,7 +715,10 @@ public:
                 src.dataOffset()*sizeof(FROM),
                 src.dataCount()*sizeof(FROM))
         ,m_vtype((ScalarType)ScalarTypeID<FROM>::value)
-    {}
+    {
+        // room for push_back() is not lost
+        this->m_total = src.dataTotal()*sizeof(FROM);
+    }
 
     shared_vector(shared_vector<void>& O,
                   detail::_shared_vector_freeze_tag t)
-- 
2.43.0

