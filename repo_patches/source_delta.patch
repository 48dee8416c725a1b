From b9644bc28055bff901e5b30fe362e58326f0c51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 01/79] fix: construct and destroy each sequence element
 exactly once

Growing a sequence default-constructed every slot of the new block and the
elements were then constructed again on top of them, which leaked whatever
the first construction had allocated.
---
 include/xtypes/SequenceInstance.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 48779ec..98079f5 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -242,11 +242,8 @@ private:
             memory = size > 0 ? new uint8_t[size * block_size_] : nullptr;
             if (memory != nullptr)
             {
+                // Only the first size_ elements are constructed: the ones beyond are raw memory.
                 memset(memory, 0, size * block_size_);
-                for (uint32_t idx = 0; idx < size; ++idx)
-                {
-                    content_->construct_instance(memory + idx * block_size_);
-                }
             }
         }
     }
@@ -304,7 +301,7 @@ private:
             {
                 for (uint32_t i = 0; i < size_; i++)
                 {
-                    content_->move_instance(target + i * block_size_, source + i * block_size_, true);
+                    content_->move_instance(target + i * block_size_, source + i * block_size_, false);
                 }
             }
             else //optimization when the type is primitive
@@ -320,9 +317,9 @@ private:
         {
             if (content_->is_constructed_type())
             {
-                for (int32_t i = capacity_ - 1; i >= 0; i--)
+                for (uint32_t i = size_; i > 0; i--)
                 {
-                    content_->destroy_instance(memory_ + i * block_size_);
+                    content_->destroy_instance(memory_ + (i - 1) * block_size_);
                 }
             }
 
-- 
2.43.0


From 2e72eecef46a82809750666ac9db7b1111f5ef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:22 +0000
Subject: [PATCH 02/79] fix: push an element of the same sequence when it has
 to grow

The source was read after the reallocation had released it.
---
 include/xtypes/SequenceInstance.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 98079f5..2cd4660 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -152,7 +152,17 @@ public:
     {
         if (memory_ == nullptr || size_ == capacity_)
         {
-            realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+            if (memory_ != nullptr && instance >= memory_ && instance < memory_ + size_ * block_size_)
+            {
+                // The instance belongs to this sequence: follow it to the new memory.
+                size_t offset = instance - memory_;
+                realloc(capacity_ * 2, bounds);
+                instance = memory_ + offset;
+            }
+            else
+            {
+                realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+            }
         }
 
         uint8_t* place = memory_ + size_ * block_size_;
-- 
2.43.0


From f4eeaf05ec94cdcbf9914d412c91fa9eb4df2941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 03/79] fix: moving a value takes over its content and leaves a
 valid source

The move of strings, sequences and maps copied (the source was cast to
const) while the moved-from data was considered empty and leaked its
content. A union moved over another one now destroys the member that was
active there.
---
 include/xtypes/DynamicData.hpp      |  1 -
 include/xtypes/MapInstance.hpp      | 13 ++++++++-----
 include/xtypes/MapType.hpp          |  2 +-
 include/xtypes/SequenceInstance.hpp | 13 ++++++++-----
 include/xtypes/SequenceType.hpp     |  2 +-
 include/xtypes/StringType.hpp       |  9 +++++++--
 include/xtypes/UnionType.hpp        | 10 ++++++++--
 7 files changed, 33 insertions(+), 17 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index de5d7fe..6015f21 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1377,7 +1377,6 @@ public:
     {
         memset(instance_, 0, other.type().memory_size());
         type_->move_instance(instance_, p_instance(other), false);
-        other.initialize_ = false;
     }
 
     /// \brief Assignment operator
diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 305c0c0..a1ed6d4 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -93,13 +93,16 @@ public:
 
     MapInstance(
             MapInstance&& other)
-        : content_(std::move(other.content_))
-        , block_size_(std::move(other.block_size_))
-        , capacity_(std::move(other.capacity_))
-        , memory_(std::move(other.memory_))
-        , size_(std::move(other.size_))
+        : content_(other.content_)
+        , block_size_(other.block_size_)
+        , capacity_(other.capacity_)
+        , memory_(other.memory_)
+        , size_(other.size_)
     {
+        // The moved instance remains as a valid empty one.
         other.memory_ = nullptr;
+        other.capacity_ = 0;
+        other.size_ = 0;
     }
 
     /// \brief Deep equality operator
diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index d6bf866..59dec95 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -127,7 +127,7 @@ public:
         {
             destroy_instance(target);
         }
-        new (target) MapInstance(std::move(*reinterpret_cast<const MapInstance*>(source)));
+        new (target) MapInstance(std::move(*reinterpret_cast<MapInstance*>(source)));
     }
 
     virtual void destroy_instance(
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 2cd4660..76955f3 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -104,13 +104,16 @@ public:
 
     SequenceInstance(
             SequenceInstance&& other)
-        : content_(std::move(other.content_))
-        , block_size_(std::move(other.block_size_))
-        , capacity_(std::move(other.capacity_))
-        , memory_(std::move(other.memory_))
-        , size_(std::move(other.size_))
+        : content_(other.content_)
+        , block_size_(other.block_size_)
+        , capacity_(other.capacity_)
+        , memory_(other.memory_)
+        , size_(other.size_)
     {
+        // The moved instance remains as a valid empty one.
         other.memory_ = nullptr;
+        other.capacity_ = 0;
+        other.size_ = 0;
     }
 
     /// \brief Deep equality operator
diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index 84500a0..3be6830 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -121,7 +121,7 @@ public:
         {
             destroy_instance(target);
         }
-        new (target) SequenceInstance(std::move(*reinterpret_cast<const SequenceInstance*>(source)));
+        new (target) SequenceInstance(std::move(*reinterpret_cast<SequenceInstance*>(source)));
     }
 
     virtual void destroy_instance(
diff --git a/include/xtypes/StringType.hpp b/include/xtypes/StringType.hpp
index 382949b..253646b 100644
--- a/include/xtypes/StringType.hpp
+++ b/include/xtypes/StringType.hpp
@@ -101,9 +101,14 @@ public:
     virtual void move_instance(
             uint8_t* target,
             uint8_t* source,
-            bool) const override
+            bool initialized) const override
     {
-        new (target) std::basic_string<CHAR_T>(std::move(*reinterpret_cast<const std::basic_string<CHAR_T>*>(source)));
+        if (initialized)
+        {
+            destroy_instance(target);
+        }
+
+        new (target) std::basic_string<CHAR_T>(std::move(*reinterpret_cast<std::basic_string<CHAR_T>*>(source)));
     }
 
     virtual void destroy_instance(
diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 65ba758..51e6b45 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -319,13 +319,19 @@ public:
             uint8_t* source,
             bool initialized) const override
     {
-        disc()->type().move_instance(target, source, initialized);
+        if (initialized)
+        {
+            // The member active in target isn't necessarily the one that is going to be moved.
+            destroy_instance(target);
+        }
+
+        disc()->type().move_instance(target, source, false);
         int64_t label = current_label(disc()->type(), target);
         if (0 < labels_.count(label))
         {
             Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
             member->type().move_instance(target + member->offset(),
-                    source + member->offset(), initialized);
+                    source + member->offset(), false);
         }
     }
 
-- 
2.43.0


From ae598cbd11bb883a5dc31cb37773c691908c6c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 04/79] fix: a DynamicData built from a reference copies the
 referred data

---
 include/xtypes/DynamicData.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 6015f21..89c69da 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -68,12 +68,12 @@ public:
 
     ReadableDynamicDataRef(const ReadableDynamicDataRef& other) = default;
 
+    /// \brief A reference doesn't own its data: the moved object (maybe a DynamicData) must remain valid.
     ReadableDynamicDataRef(ReadableDynamicDataRef&& other)
-        : type_(std::move(other.type_))
+        : type_(other.type_)
         , instance_(other.instance_)
         , initialize_(other.initialize_)
     {
-        other.initialize_ = false;
     }
 
     virtual ~ReadableDynamicDataRef() = default;
@@ -1332,14 +1332,18 @@ public:
     /// \brief Copy constructor from a ReadableDynamicDataRef
     DynamicData(
             const ReadableDynamicDataRef& other)
-        : WritableDynamicDataRef(other)
+        : WritableDynamicDataRef(other.type(), new uint8_t[other.type().memory_size()])
     {
+        memset(instance_, 0, other.type().memory_size());
+        type_->copy_instance(instance_, p_instance(other));
+        initialize_ = true;
     }
 
-    /// \brief Move constructor from a WritableDynamicDataRef
+    /// \brief Constructor from a temporal WritableDynamicDataRef.
+    /// The reference doesn't own the data, so it is copied.
     DynamicData(
             WritableDynamicDataRef&& other)
-        : WritableDynamicDataRef(std::move(other))
+        : DynamicData(static_cast<const ReadableDynamicDataRef&>(other))
     {
     }
 
-- 
2.43.0


From 70be01d06c2912fcde5657ef75791f33bdf88545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 05/79] fix: an assignment checks the types and allows the
 assigned data to be its own source

---
 include/xtypes/DynamicData.hpp | 38 +++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 89c69da..a093900 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -819,8 +819,7 @@ public:
     WritableDynamicDataRef& operator = (
             const WritableDynamicDataRef& other)
     {
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        assign(other);
         return *this;
     }
 
@@ -1020,8 +1019,12 @@ public:
                     "Trying to set an invalid value for enumerated type '" << type_->name() << "'.");
         }
 
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, reinterpret_cast<const uint8_t*>(&t));
+        const uint8_t* source = reinterpret_cast<const uint8_t*>(&t);
+        if (source != instance_) // The current value can be received by reference
+        {
+            type_->destroy_instance(instance_);
+            type_->copy_instance(instance_, source);
+        }
     }
 
     /// \brief Push a primitive or string value into the DynamicData that represents a SequenceType
@@ -1290,6 +1293,21 @@ public:
 
 protected:
 
+    /// \brief Replaces the content by a copy of the content of other.
+    /// \pre The types must be equivalent.
+    void assign(
+            const ReadableDynamicDataRef& other)
+    {
+        xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
+                "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
+                                                      << type_->name() << "'.");
+        // The source can be this data or a part of it, so the new content is built before releasing the current one.
+        std::unique_ptr<uint8_t[]> content(new uint8_t[type_->memory_size()]());
+        type_->copy_instance_from_type(content.get(), p_instance(other), other.type());
+        type_->move_instance(instance_, content.get(), true);
+        type_->destroy_instance(content.get());
+    }
+
     WritableDynamicDataRef(
             const DynamicType& type,
             uint8_t* source)
@@ -1387,11 +1405,7 @@ public:
     DynamicData& operator = (
             const DynamicData& other)
     {
-        xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
-                "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
-                                                      << type_->name() << "'.");
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        assign(other);
         return *this;
     }
 
@@ -1399,11 +1413,7 @@ public:
     DynamicData& operator = (
             ReadableDynamicDataRef other)
     {
-        xtypes_assert(type_->is_compatible(other.type()) == TypeConsistency::EQUALS,
-                "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
-                                                      << type_->name() << "'.");
-        type_->destroy_instance(instance_);
-        type_->copy_instance(instance_, p_instance(other));
+        assign(other);
         return *this;
     }
 
-- 
2.43.0


From a104fbc3e1dae8ca51cf0a0b1a3e50cf33517bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 06/79] fix: a refused copy to other type releases its memory

---
 include/xtypes/DynamicData.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index a093900..de9e818 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1372,13 +1372,14 @@ public:
     DynamicData(
             const ReadableDynamicDataRef& other,
             const DynamicType& type)
-        : WritableDynamicDataRef(type, new uint8_t[type.memory_size()])
+        : WritableDynamicDataRef(type, nullptr)
     {
         xtypes_assert(type_->is_compatible(other.type()) != TypeConsistency::NONE,
                 "Incompatible types in DynamicData(const ReadableDynamicDataRef&, const DynamicType&): '"
                 << type_->name() << "' isn't compatible with '" << other.type().name() << "'.");
-        memset(instance_, 0, type.memory_size());
-        type_->copy_instance_from_type(instance_, p_instance(other), other.type());
+        std::unique_ptr<uint8_t[]> content(new uint8_t[type.memory_size()]());
+        type_->copy_instance_from_type(content.get(), p_instance(other), other.type());
+        instance_ = content.release();
         initialize_ = true;
     }
 
-- 
2.43.0


From b5b240aa42a51748e035abb72490b851a9188fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 07/79] fix: as_vector() and push() of native values on empty
 sequences and aliased contents

---
 include/xtypes/DynamicData.hpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index de9e818..c607017 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -316,14 +316,19 @@ public:
         const CollectionType& collection = static_cast<const CollectionType&>(*type_);
         xtypes_assert(type_->is_collection_type(),
                 "as_vector() isn't available for type '" << type_->name() << "'.");
-        xtypes_assert((collection.content_type().kind() == TypeKind::STRING_TYPE && std::is_same<std::string, T>::value)
-                || (collection.content_type().kind() == TypeKind::WSTRING_TYPE && std::is_same<std::wstring, T>::value)
-                || (collection.content_type().kind() == TypeKind::STRING16_TYPE &&
-                std::is_same<std::u16string, T>::value)
-                || (collection.content_type().kind() == primitive_type<T>().kind()),
+        [[maybe_unused]] TypeKind content_kind = resolved_kind(collection.content_type());
+        xtypes_assert((content_kind == TypeKind::STRING_TYPE && std::is_same<std::string, T>::value)
+                || (content_kind == TypeKind::WSTRING_TYPE && std::is_same<std::wstring, T>::value)
+                || (content_kind == TypeKind::STRING16_TYPE && std::is_same<std::u16string, T>::value)
+                || (content_kind == primitive_type<T>().kind()),
                 "as_vector<" << PrimitiveTypeKindTrait<T>::name << ">() isn't available for type '"
                              << type_->name() << "'.");
 
+        if (size() == 0)
+        {
+            return std::vector<T>();
+        }
+
         const T* location = reinterpret_cast<T*>(collection.get_instance_at(instance_, 0));
         return std::vector<T>(location, location + size());
     }
@@ -653,6 +658,15 @@ protected:
     uint8_t* instance_;
     bool initialize_ = false;
 
+    /// \brief Kind of a type once its aliases are resolved.
+    static TypeKind resolved_kind(
+            const DynamicType& type)
+    {
+        return type.kind() == TypeKind::ALIAS_TYPE
+               ? static_cast<const AliasType&>(type).rget().kind()
+               : type.kind();
+    }
+
     /// \brief protected access to other DynamicData instace.
     /// \param[in] other readable reference from who get the instance.
     /// \result The raw instance.
@@ -1039,10 +1053,11 @@ public:
         xtypes_assert(type_->kind() == TypeKind::SEQUENCE_TYPE,
                 "push() is only available for sequence types but called for '" << type_->name() << "'.");
         const SequenceType& sequence = static_cast<const SequenceType&>(*type_);
-        xtypes_assert((sequence.content_type().kind() == TypeKind::STRING_TYPE && std::is_same<std::string, T>::value)
-                || (sequence.content_type().kind() == TypeKind::WSTRING_TYPE && std::is_same<std::wstring, T>::value)
-                || (sequence.content_type().kind() == TypeKind::STRING16_TYPE && std::is_same<std::u16string, T>::value)
-                || (sequence.content_type().kind() == primitive_type<T>().kind()),
+        [[maybe_unused]] TypeKind content_kind = resolved_kind(sequence.content_type());
+        xtypes_assert((content_kind == TypeKind::STRING_TYPE && std::is_same<std::string, T>::value)
+                || (content_kind == TypeKind::WSTRING_TYPE && std::is_same<std::wstring, T>::value)
+                || (content_kind == TypeKind::STRING16_TYPE && std::is_same<std::u16string, T>::value)
+                || (content_kind == primitive_type<T>().kind()),
                 "Expected type '" << static_cast<const SequenceType&>(*type_).content_type().name()
                                   << "' but '" << PrimitiveTypeKindTrait<T>::name << "' received while pushing value.");
 
-- 
2.43.0


From 06ca30965086400a29d8411992badd65757f0adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:42 +0000
Subject: [PATCH 08/79] fix: push() and map accesses refuse data of other type

---
 include/xtypes/DynamicData.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index c607017..d4b51e1 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -251,6 +251,7 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
+        xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
         uint8_t* instance = map.get_instance_at(instance_, data.instance_);
         xtypes_assert(instance != nullptr, "MapType '" << type_->name() << "' doesn't contains the requested key.");
         return ReadableDynamicDataRef(pair.second(), instance + pair.first().memory_size());
@@ -955,6 +956,7 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
+        xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
         uint8_t* instance = map.get_instance_at(instance_, p_instance(data));
         if (instance == nullptr)
         {
@@ -1077,6 +1079,9 @@ public:
         xtypes_assert(type_->kind() == TypeKind::SEQUENCE_TYPE,
                 "push() is only available for sequence types but called for '" << type_->name() << "'.");
         const SequenceType& sequence = static_cast<const SequenceType&>(*type_);
+        xtypes_assert(sequence.content_type().is_compatible(data.type()) == TypeConsistency::EQUALS,
+                "Expected type '" << sequence.content_type().name() << "' but '" << data.type().name()
+                                  << "' received while pushing value.");
 
         uint8_t* element = sequence.push_instance(instance_, p_instance(data));
         xtypes_assert(element != nullptr, "Bound limit reached while pushing value."); (void) element;
-- 
2.43.0


From b60822b46403b8375b9e682c145dd0f1614d7b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:40 +0000
Subject: [PATCH 09/79] fix: construct and destroy each map pair exactly once

---
 include/xtypes/MapInstance.hpp | 58 +++++++++++-----------------------
 1 file changed, 18 insertions(+), 40 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index a1ed6d4..904ce7a 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -227,7 +227,7 @@ private:
         uint8_t* new_memory = nullptr;
         init_memory(new_memory, new_capacity);
 
-        move_content(new_memory, memory_, true);
+        move_content(new_memory, memory_);
 
         free_memory();
         memory_ = new_memory;
@@ -247,11 +247,8 @@ private:
             memory = size > 0 ? new uint8_t[size * block_size_] : nullptr;
             if (memory != nullptr)
             {
+                // Only the first size_ pairs are constructed: the ones beyond are raw memory.
                 memset(memory, 0, size * block_size_);
-                for (uint32_t idx = 0; idx < size; ++idx)
-                {
-                    content_->construct_instance(memory + idx * block_size_);
-                }
             }
         }
     }
@@ -303,46 +300,30 @@ private:
         size_ = min_size;
     }
 
+    /// \brief Moves all the pairs to a new raw memory. The pairs of source must be destroyed afterwards.
     void move_content(
             uint8_t* target,
-            uint8_t* source,
-            bool overlap = false)
+            uint8_t* source)
     {
         if (source != nullptr)
         {
-            if (content_->first().is_constructed_type() || content_->second().is_constructed_type())
+            for (uint32_t i = 0; i < size_; ++i)
             {
-                if (overlap && check_overlap(target, source))
-                {
-                    // Creating a place
-                    uint32_t to_move = size_ - get_key_index(source);
-                    for (uint32_t i = to_move; i > 0; --i)
-                    {
-                        content_->move_instance(target + (i - 1) * block_size_, source + (i - 1) * block_size_, true);
-                    }
-                }
-                else
-                {
-                    // Moving full memory
-                    for (uint32_t i = 0; i < size_; ++i)
-                    {
-                        content_->move_instance(target + i * block_size_, source + i * block_size_, true);
-                    }
-                }
-            }
-            else //optimization when the pair are both primitive
-            {
-                std::memmove(target, source, (size_ - get_key_index(source)) * block_size_);
+                content_->move_instance(target + i * block_size_, source + i * block_size_, false);
             }
         }
     }
 
-    bool check_overlap(
-            const uint8_t* target,
-            const uint8_t* source) const
+    /// \brief Moves all the pairs from place one position, leaving place as raw memory.
+    void shift_content(
+            uint8_t* place)
     {
-        uint8_t* end = get_element(size_);
-        return source >= memory_ && target > source && end >= target; // target and source are inside the block of memory
+        for (uint8_t* source = get_element(size_); source != place;)
+        {
+            source -= block_size_;
+            content_->move_instance(source + block_size_, source, false);
+            content_->destroy_instance(source);
+        }
     }
 
     uint8_t* create_place(
@@ -356,7 +337,7 @@ private:
             "Key already exists.");
         if (place != get_element(size_))
         {
-            move_content(place + block_size_, place, true);
+            shift_content(place);
         }
         return place;
     }
@@ -460,12 +441,9 @@ private:
     {
         if (memory_ != nullptr)
         {
-            if (content_->is_constructed_type())
+            for (uint32_t i = size_; i > 0; i--)
             {
-                for (int32_t i = capacity_ - 1; i >= 0; i--)
-                {
-                    content_->destroy_instance(memory_ + i * block_size_);
-                }
+                content_->destroy_instance(memory_ + (i - 1) * block_size_);
             }
 
             delete[] memory_;
-- 
2.43.0


From 342c306eb9dd6eec10fa693637176d103b78ebc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 10/79] fix: a map copied from other map type uses its own
 content type

---
 include/xtypes/MapInstance.hpp | 36 +++++++++++++++++++++-------------
 include/xtypes/MapType.hpp     |  5 ++++-
 2 files changed, 26 insertions(+), 15 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 904ce7a..74f8529 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -37,22 +37,11 @@ public:
     MapInstance(
             const PairType& content,
             uint32_t capacity = 0)
-        : block_size_(content.memory_size())
+        : content_(share(content))
+        , block_size_(content.memory_size())
         , capacity_(capacity)
         , size_(0)
     {
-        std::shared_ptr<const DynamicType> tmp;
-        try
-        {
-            tmp = (content.shared_from_this());
-        }
-        catch(const std::bad_weak_ptr&)
-        {
-            tmp = content.clone();
-        }
-
-        content_ = std::static_pointer_cast<const PairType>(std::move(tmp));
-
         init_memory(memory_, capacity_);
     }
 
@@ -73,12 +62,14 @@ public:
 
     /// \brief Copy constructor from a MapInstance with other but compatible content.
     /// \param[in] other Map from copy the values.
+    /// \param[in] content Content of the map.
     /// \param[in] bounds Max copied elements.
     /// \pre content and other.content compatibles (see dds::core::xtypes::DynamicType::is_compatible())
     MapInstance(
             const MapInstance& other,
+            const PairType& content,
             uint32_t bounds)
-        : content_(other.content_)
+        : content_(share(content))
         , block_size_(content_->memory_size())
         , capacity_(bounds == 0 ? other.capacity_ : std::min(other.capacity_, bounds))
         , size_(bounds == 0 ? other.size_ : std::min(other.size_, bounds))
@@ -219,6 +210,23 @@ private:
     uint8_t* memory_ = nullptr;
     uint32_t size_ = 0;
 
+    static std::shared_ptr<const PairType> share(
+            const PairType& content)
+    {
+        std::shared_ptr<const DynamicType> tmp;
+        try
+        {
+            // is already associated to the DynamicData object
+            tmp = (content.shared_from_this());
+        }
+        catch(const std::bad_weak_ptr&)
+        {
+            // make a copy (if type changes may blow the DynamicData object)
+            tmp = content.clone();
+        }
+        return std::static_pointer_cast<const PairType>(std::move(tmp));
+    }
+
     void realloc(
             size_t desired_capacity,
             uint32_t bounds)
diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index 59dec95..31f9280 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -115,7 +115,10 @@ public:
             "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
 
         (void) other;
-        new (target) MapInstance(*reinterpret_cast<const MapInstance*>(source), bounds());
+        new (target) MapInstance(
+            *reinterpret_cast<const MapInstance*>(source),
+            static_cast<const PairType&>(content_type()),
+            bounds());
     }
 
     virtual void move_instance(
-- 
2.43.0


From 851fd61bc4c637ca44d3aec07ef359121909d05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 11/79] fix: insert() stores the value of the pair and refuses
 existing keys

---
 include/xtypes/DynamicData.hpp | 40 ++++++++++++++++++++++++++++++----
 include/xtypes/MapType.hpp     | 19 ++++++++++++++++
 2 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index d4b51e1..4498be0 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -659,6 +659,39 @@ protected:
     uint8_t* instance_;
     bool initialize_ = false;
 
+    /// \brief Temporal copy of a data, represented as an instance of a compatible type.
+    class ConvertedInstance
+    {
+    public:
+
+        ConvertedInstance(
+                const DynamicType& type,
+                const ReadableDynamicDataRef& data)
+            : type_(type)
+            , memory_(new uint8_t[type.memory_size()]())
+        {
+            type_.copy_instance_from_type(memory_.get(), data.instance_, data.type());
+        }
+
+        ConvertedInstance(
+                const ConvertedInstance&) = delete;
+
+        ~ConvertedInstance()
+        {
+            type_.destroy_instance(memory_.get());
+        }
+
+        uint8_t* get() const
+        {
+            return memory_.get();
+        }
+
+    private:
+
+        const DynamicType& type_;
+        std::unique_ptr<uint8_t[]> memory_;
+    };
+
     /// \brief Kind of a type once its aliases are resolved.
     static TypeKind resolved_kind(
             const DynamicType& type)
@@ -991,7 +1024,8 @@ public:
 
         const MapType& map = static_cast<const MapType&>(*type_);
         xtypes_assert(map.content_type().is_compatible(data.type()) == TypeConsistency::EQUALS, "Types doesn't match");
-        return map.insert_instance(instance_, p_instance(data)) != nullptr;
+        ConvertedInstance pair(map.content_type(), data);
+        return map.insert_pair_instance(instance_, pair.get()) != nullptr;
     }
 
     /// \brief checks if a key is contained in the map represented by the DynamicData.
@@ -1322,10 +1356,8 @@ protected:
                 "Cannot assign DynamicData of type '" << other.type().name() << "' to DynamicData of type '"
                                                       << type_->name() << "'.");
         // The source can be this data or a part of it, so the new content is built before releasing the current one.
-        std::unique_ptr<uint8_t[]> content(new uint8_t[type_->memory_size()]());
-        type_->copy_instance_from_type(content.get(), p_instance(other), other.type());
+        ConvertedInstance content(*type_, other);
         type_->move_instance(instance_, content.get(), true);
-        type_->destroy_instance(content.get());
     }
 
     WritableDynamicDataRef(
diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index 31f9280..ac419c6 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -237,6 +237,25 @@ public:
     }
 
     /// \brief checks if a key is contained in the map.
+    /// \brief Insert a pair into a map instance.
+    /// \param[in, out] instance Memory instance representing a MapInstance.
+    /// \param[in, out] pair_instance Instance of the pair to add. Its value is moved into the map.
+    /// \returns an instance location representing the new pair added
+    /// or nullptr if the key already exists or the map reached the limit.
+    uint8_t* insert_pair_instance(
+            uint8_t* instance,
+            uint8_t* pair_instance) const
+    {
+        uint8_t* place = has_key(instance, pair_instance) ? nullptr : insert_instance(instance, pair_instance);
+        if (place != nullptr)
+        {
+            const PairType& pair = static_cast<const PairType&>(content_type());
+            size_t offset = pair.first().memory_size();
+            pair.second().move_instance(place + offset, pair_instance + offset, true);
+        }
+        return place;
+    }
+
     bool has_key(
             uint8_t* instance,
             uint8_t* key) const
-- 
2.43.0


From 8d321859edabbc6823693575901f976733652867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 12/79] fix: convert pushed elements and map keys to the type
 that the collection holds

---
 include/xtypes/DynamicData.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 4498be0..342317e 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -252,7 +252,8 @@ public:
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
         xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
-        uint8_t* instance = map.get_instance_at(instance_, data.instance_);
+        ConvertedInstance key(pair.first(), data);
+        uint8_t* instance = map.get_instance_at(instance_, key.get());
         xtypes_assert(instance != nullptr, "MapType '" << type_->name() << "' doesn't contains the requested key.");
         return ReadableDynamicDataRef(pair.second(), instance + pair.first().memory_size());
     }
@@ -990,10 +991,11 @@ public:
         const MapType& map = static_cast<const MapType&>(*type_);
         const PairType& pair = static_cast<const PairType&>(map.content_type());
         xtypes_assert(pair.first().is_compatible(data.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
-        uint8_t* instance = map.get_instance_at(instance_, p_instance(data));
+        ConvertedInstance key(pair.first(), data);
+        uint8_t* instance = map.get_instance_at(instance_, key.get());
         if (instance == nullptr)
         {
-            instance = map.insert_instance(instance_, p_instance(data));
+            instance = map.insert_instance(instance_, key.get());
             xtypes_assert(instance != nullptr, "Cannot insert new element into map.");
         }
         return WritableDynamicDataRef(pair.second(), instance + pair.first().memory_size());
@@ -1038,9 +1040,10 @@ public:
             "has_key method is only available for MapType.");
 
         const MapType& map = static_cast<const MapType&>(*type_);
-        [[maybe_unused]] const PairType& pair = static_cast<const PairType&>(map.content_type());
+        const PairType& pair = static_cast<const PairType&>(map.content_type());
         xtypes_assert(pair.first().is_compatible(key.type()) == TypeConsistency::EQUALS, "Key types doesn't match.");
-        return map.has_key(instance_, p_instance(key));
+        ConvertedInstance converted(pair.first(), key);
+        return map.has_key(instance_, converted.get());
     }
 
     /// \brief Set a primitive or string value into the DynamicData
@@ -1117,7 +1120,8 @@ public:
                 "Expected type '" << sequence.content_type().name() << "' but '" << data.type().name()
                                   << "' received while pushing value.");
 
-        uint8_t* element = sequence.push_instance(instance_, p_instance(data));
+        ConvertedInstance value(sequence.content_type(), data);
+        uint8_t* element = sequence.push_instance(instance_, value.get());
         xtypes_assert(element != nullptr, "Bound limit reached while pushing value."); (void) element;
         return *this;
     }
-- 
2.43.0


From 11a90df1b9d48dff16356fa24f2c4fc504c56a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 13/79] fix: a refused conversion releases the parts already
 converted

---
 include/xtypes/ArrayType.hpp        | 22 +++++++++++++----
 include/xtypes/MapInstance.hpp      | 37 +++++++++++++++++++----------
 include/xtypes/PairType.hpp         | 11 ++++++++-
 include/xtypes/SequenceInstance.hpp | 37 +++++++++++++++++++----------
 include/xtypes/StructType.hpp       | 33 +++++++++++++++++--------
 5 files changed, 100 insertions(+), 40 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 62efd0c..f4cca78 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -162,12 +162,24 @@ public:
 
         if (content_type().is_constructed_type() || block_size != other_block_size)
         {
-            for (uint32_t i = 0; i < min_dimension; i++)
+            uint32_t done = 0;
+            try
             {
-                content_type().copy_instance_from_type(
-                    target + i * block_size,
-                    source + i * other_block_size,
-                    other_array.content_type());
+                for (; done < min_dimension; done++)
+                {
+                    content_type().copy_instance_from_type(
+                        target + done * block_size,
+                        source + done * other_block_size,
+                        other_array.content_type());
+                }
+            }
+            catch (...)
+            {
+                while (done > 0)
+                {
+                    content_type().destroy_instance(target + --done * block_size);
+                }
+                throw;
             }
         }
         else //optimization when the type is primitive with same block_size
diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 74f8529..0236070 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -52,12 +52,7 @@ public:
         , capacity_(other.capacity_)
         , size_(other.size_)
     {
-        init_memory(memory_, capacity_);
-
-        if (memory_ != nullptr)
-        {
-            copy_content(other, size_);
-        }
+        copy_from(other);
     }
 
     /// \brief Copy constructor from a MapInstance with other but compatible content.
@@ -74,12 +69,7 @@ public:
         , capacity_(bounds == 0 ? other.capacity_ : std::min(other.capacity_, bounds))
         , size_(bounds == 0 ? other.size_ : std::min(other.size_, bounds))
     {
-        init_memory(memory_, capacity_);
-
-        if (memory_ != nullptr)
-        {
-            copy_content(other, size_);
-        }
+        copy_from(other);
     }
 
     MapInstance(
@@ -261,6 +251,28 @@ private:
         }
     }
 
+    /// \brief Initialize the memory of a new instance with a copy of the first size_ elements of other.
+    void copy_from(
+            const MapInstance& other)
+    {
+        init_memory(memory_, capacity_);
+
+        if (memory_ != nullptr)
+        {
+            uint32_t bounds = size_;
+            size_ = 0;
+            try
+            {
+                copy_content(other, bounds);
+            }
+            catch (...)
+            {
+                free_memory();
+                throw;
+            }
+        }
+    }
+
     void copy_content(
             const MapInstance& other,
             uint32_t bounds)
@@ -299,6 +311,7 @@ private:
                     memory_ + i * block_size_,
                     other.memory_ + i * other.content_->memory_size(),
                     *other.content_);
+                size_ = i + 1;
             }
         }
         else //optimization when the pair are both primitive with same size
diff --git a/include/xtypes/PairType.hpp b/include/xtypes/PairType.hpp
index ba59729..db816bf 100644
--- a/include/xtypes/PairType.hpp
+++ b/include/xtypes/PairType.hpp
@@ -126,7 +126,16 @@ public:
 
         const PairType& pair = static_cast<const PairType&>(other);
         first_->copy_instance_from_type(target, source, pair.first());
-        second_->copy_instance_from_type(target + first_->memory_size(), source + first_->memory_size(), pair.second());
+        try
+        {
+            second_->copy_instance_from_type(
+                target + first_->memory_size(), source + pair.first().memory_size(), pair.second());
+        }
+        catch (...)
+        {
+            first_->destroy_instance(target);
+            throw;
+        }
     }
 
     void move_instance(
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 76955f3..c4049c2 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -62,12 +62,7 @@ public:
         , capacity_(other.capacity_)
         , size_(other.size_)
     {
-        init_memory(memory_, capacity_);
-
-        if (memory_ != nullptr)
-        {
-            copy_content(other, size_);
-        }
+        copy_from(other);
     }
 
     /// \brief Copy constructor from a SequenceInstance with other but compatible content.
@@ -94,12 +89,7 @@ public:
             content_ = content.clone();
         }
 
-        init_memory(memory_, capacity_);
-
-        if (memory_ != nullptr)
-        {
-            copy_content(other, size_);
-        }
+        copy_from(other);
     }
 
     SequenceInstance(
@@ -261,6 +251,28 @@ private:
         }
     }
 
+    /// \brief Initialize the memory of a new instance with a copy of the first size_ elements of other.
+    void copy_from(
+            const SequenceInstance& other)
+    {
+        init_memory(memory_, capacity_);
+
+        if (memory_ != nullptr)
+        {
+            uint32_t bounds = size_;
+            size_ = 0;
+            try
+            {
+                copy_content(other, bounds);
+            }
+            catch (...)
+            {
+                free_memory();
+                throw;
+            }
+        }
+    }
+
     void copy_content(
             const SequenceInstance& other,
             uint32_t bounds)
@@ -295,6 +307,7 @@ private:
                     memory_ + i * block_size_,
                     other.memory_ + i * other_block_size,
                     *other.content_);
+                size_ = i + 1;
             }
         }
         else //optimization when the type is primitive with same block_size
diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index 6ee3ca1..dd6ccdf 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -133,21 +133,34 @@ public:
 
         const StructType& other_struct = static_cast<const StructType&>(other);
 
-        auto other_member = other_struct.members().begin();
-        for (auto&& member: members())
+        size_t done = 0;
+        try
         {
-            if (other_member != other_struct.members().end())
+            for (; done < members().size(); done++)
             {
-                member.type().copy_instance_from_type(
-                    target + member.offset(),
-                    source + other_member->offset(),
-                    other_member->type());
+                const Member& current = member(done);
+                if (done < other_struct.members().size())
+                {
+                    const Member& other_member = other_struct.member(done);
+                    current.type().copy_instance_from_type(
+                        target + current.offset(),
+                        source + other_member.offset(),
+                        other_member.type());
+                }
+                else
+                {
+                    current.type().construct_instance(target + current.offset());
+                }
             }
-            else
+        }
+        catch (...)
+        {
+            while (done > 0)
             {
-                member.type().construct_instance(target + member.offset());
+                const Member& current = member(--done);
+                current.type().destroy_instance(target + current.offset());
             }
-            other_member++;
+            throw;
         }
     }
 
-- 
2.43.0


From 487426cbfd184b728c13350fc4ea6c5d919a332c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 14/79] fix: compare and hash floating point contents by value

---
 include/xtypes/ArrayType.hpp        |  4 ++--
 include/xtypes/DynamicType.hpp      | 10 ++++++++++
 include/xtypes/MapInstance.hpp      |  2 +-
 include/xtypes/PrimitiveType.hpp    | 14 ++++++++++++++
 include/xtypes/SequenceInstance.hpp |  2 +-
 5 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index f4cca78..ee653e9 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -225,7 +225,7 @@ public:
             const uint8_t* other_instance) const override
     {
         size_t block_size = content_type().memory_size();
-        if (content_type().is_constructed_type())
+        if (!content_type().has_unique_representation())
         {
             bool comp = true;
             for (uint32_t i = 0; i < dimension_; i++)
@@ -312,7 +312,7 @@ public:
         if (dimension_ > 0)
         {
             uint8_t* instance = const_cast<uint8_t*>(c_instance);
-            if (content_type().is_constructed_type())
+            if (!content_type().has_unique_representation())
             {
                 uint64_t h = content_type().hash(instance);
                 for (size_t i = 1; i < dimension_; ++i)
diff --git a/include/xtypes/DynamicType.hpp b/include/xtypes/DynamicType.hpp
index fa633d8..3202eae 100644
--- a/include/xtypes/DynamicType.hpp
+++ b/include/xtypes/DynamicType.hpp
@@ -86,6 +86,16 @@ public:
         return (kind_& TypeKind::CONSTRUCTED_TYPE) != TypeKind::NO_TYPE;
     }
 
+    /// \brief check if equal values of this type are always represented by the same bytes.
+    /// That isn't true for floating point types (both zeros are equal, they can have padding).
+    bool has_unique_representation() const
+    {
+        return is_primitive_type()
+               && kind_ != TypeKind::FLOAT_32_TYPE
+               && kind_ != TypeKind::FLOAT_64_TYPE
+               && kind_ != TypeKind::FLOAT_128_TYPE;
+    }
+
     /// \brief check if this type is enumerated
     /// (has the corresponding bit of TypeKind::ENUMERATED_TYPE in its kind).
     /// \returns true if is enumerated
diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 0236070..a3df6f7 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -95,7 +95,7 @@ public:
             return false;
         }
 
-        if (content_->first().is_constructed_type() || content_->second().is_constructed_type())
+        if (!content_->first().has_unique_representation() || !content_->second().has_unique_representation())
         {
             bool comp = true;
             for (uint32_t i = 0; i < size_; i++)
diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index 2e32a73..346abca 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -224,6 +224,20 @@ protected:
         return *reinterpret_cast<const T*>(instance) == *reinterpret_cast<const T*>(other_instance);
     }
 
+    virtual uint64_t hash(
+            const uint8_t* instance) const override
+    {
+        if constexpr (std::is_floating_point<T>::value)
+        {
+            // Equal values can have different bytes
+            return std::hash<T>()(*reinterpret_cast<const T*>(instance));
+        }
+        else
+        {
+            return DynamicType::hash(instance);
+        }
+    }
+
     virtual TypeConsistency is_compatible(
             const DynamicType& other) const override
     {
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index c4049c2..1e89c0c 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -115,7 +115,7 @@ public:
             return false;
         }
 
-        if (content_->is_constructed_type())
+        if (!content_->has_unique_representation())
         {
             bool comp = true;
             for (uint32_t i = 0; i < size_; i++)
-- 
2.43.0


From b3c8b4bc1d3b8a7ef055edf4c542d599bb5bb1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 15/79] fix: the hash of sequences and unions covers their
 content

---
 include/xtypes/SequenceInstance.hpp | 11 +++++++++++
 include/xtypes/SequenceType.hpp     | 21 ++-------------------
 include/xtypes/UnionType.hpp        |  5 +++--
 3 files changed, 16 insertions(+), 21 deletions(-)

diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 1e89c0c..4c598c2 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -207,6 +207,17 @@ public:
         return size_;
     }
 
+    /// \brief Hash of the current elements.
+    uint64_t sequence_hash() const
+    {
+        uint64_t h = size_;
+        for (uint32_t i = 0; i < size_; i++)
+        {
+            Instanceable::hash_combine(h, content_->hash(memory_ + i * block_size_));
+        }
+        return h;
+    }
+
 private:
 
     friend class SequenceType;
diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index 3be6830..c1dc565 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -232,26 +232,9 @@ public:
     }
 
     virtual uint64_t hash(
-            const uint8_t* c_instance) const override
+            const uint8_t* instance) const override
     {
-        if (bounds() > 0)
-        {
-            uint8_t* instance = const_cast<uint8_t*>(c_instance);
-            if (content_type().is_constructed_type())
-            {
-                uint64_t h = content_type().hash(instance);
-                for (size_t i = 1; i < bounds(); ++i)
-                {
-                    Instanceable::hash_combine(h, content_type().hash(get_instance_at(instance, i)));
-                }
-                return h;
-            }
-            else
-            {
-                return Instanceable::hash(instance);
-            }
-        }
-        return 0;
+        return reinterpret_cast<const SequenceInstance*>(instance)->sequence_hash();
     }
 
 protected:
diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 51e6b45..c889c74 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -457,9 +457,10 @@ public:
             const uint8_t* instance) const override
     {
         uint64_t h = disc()->type().hash(instance);
-        if (0 < labels_.count(h))
+        int64_t label = current_label(disc()->type(), instance);
+        if (0 < labels_.count(label))
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(h)));
+            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
             Instanceable::hash_combine(h, member->type().hash(instance + member->offset()));
         }
         return h;
-- 
2.43.0


From 7e92036ece40474c27be06b5a8048f7594d5088e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:18 +0000
Subject: [PATCH 16/79] fix: any label is valid for a union, and a second
 default leaves it unchanged

---
 include/xtypes/UnionType.hpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index c889c74..85f6835 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -68,7 +68,8 @@ public:
         , memory_size_(0)
         , default_value_(default_union_label(discriminator.memory_size()))
         , invalid_value_(default_value_ - 1)
-        , default_(invalid_value_)
+        , has_default_(false)
+        , default_(default_value_)
         , maximum_case_member_memory_(0)
     {
         xtypes_assert(
@@ -96,6 +97,7 @@ public:
         static_assert (std::is_integral<T>::value, "Only 'integral' types are allowed.");
         xtypes_assert(is_default || !labels.empty(), "Cannot add a non default case member without labels.");
         xtypes_assert(UNION_DISCRIMINATOR != member.name(), "Case member name 'discriminator' is reserved.");
+        xtypes_assert(!is_default || !has_default_, "Cannot set more than one case member as default.");
         // Check labels
         for (T label : labels)
         {
@@ -137,7 +139,7 @@ public:
 
         if (is_default)
         {
-            xtypes_assert(default_ == invalid_value_, "Cannot set more than one case member as default.");
+            has_default_ = true;
             default_ = first_label;
             if (default_ == default_value_)
             {
@@ -145,6 +147,12 @@ public:
             }
         }
 
+        // The value used when there isn't a selected member cannot be a label.
+        while (labels_.count(invalid_value_) != 0 && invalid_value_ > 0)
+        {
+            --invalid_value_;
+        }
+
         return *this;
     }
 
@@ -215,7 +223,7 @@ public:
     /// \brief Returns the default case member name.
     std::string get_default() const
     {
-        if (default_ != invalid_value_)
+        if (has_default_)
         {
             return labels_.at(default_);
         }
@@ -226,7 +234,7 @@ public:
     bool is_default(
             const std::string& name) const
     {
-        if (default_ != invalid_value_)
+        if (has_default_)
         {
             const std::string& member = labels_.at(default_);
             return member == name;
@@ -257,7 +265,7 @@ public:
         disc()->type().construct_instance(instance);
 
         // If a default exists, built it too. And set it as active.
-        if (default_ != invalid_value_)
+        if (has_default_)
         {
             const Member& def = member(labels_.at(default_));
             def.type().construct_instance(instance + def.offset());
@@ -862,7 +870,7 @@ protected:
             int64_t value) const
     {
         if (labels_.count(value) == 0 &&
-                default_ == invalid_value_)
+                !has_default_)
         {
             return false;
         }
@@ -904,7 +912,7 @@ protected:
     bool select_default(
             uint8_t* instance)
     {
-        if (default_ != invalid_value_)
+        if (has_default_)
         {
             Member* def = &const_cast<Member&>(member(labels_.at(default_)));
             activate_member(instance, def);
@@ -1141,7 +1149,8 @@ private:
     size_t memory_size_;
     // Direct access
     const int64_t default_value_;
-    const int64_t invalid_value_;
+    int64_t invalid_value_; // Value of the discriminator when there isn't a selected member
+    bool has_default_;
     int64_t default_;
     // Aux memory_size_ calculations
     size_t maximum_case_member_memory_;
-- 
2.43.0


From 2b428e26d7e3a8cea4881d6a43a9ce48a5d0a591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 17/79] fix: copy and traverse unions without a selected member

---
 include/xtypes/UnionType.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 85f6835..2be00a6 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -283,9 +283,11 @@ public:
     {
         disc()->type().copy_instance(target, source);
         int64_t label = current_label(disc()->type(), source);
-        xtypes_assert(labels_.count(label) != 0, "Stored label in source is invalid");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-        member->type().copy_instance(target + member->offset(), source + member->offset());
+        if (0 < labels_.count(label)) // Otherwise, there isn't a selected member
+        {
+            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
+            member->type().copy_instance(target + member->offset(), source + member->offset());
+        }
     }
 
     virtual void copy_instance_from_type(
@@ -436,10 +438,12 @@ public:
     {
         int64_t disc_value = current_label(disc()->type(), node.instance);
 
-        xtypes_assert(0 < labels_.count(disc_value),
-                "UnionType '" << name() << "' doesn't have a case member selected.");
-        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(disc_value)));
         visitor(node);
+        if (labels_.count(disc_value) == 0) // There isn't a selected member
+        {
+            return;
+        }
+        Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(disc_value)));
         InstanceNode child(
             node,
             member->type(),
-- 
2.43.0


From a43ec44d189ce2606864da93be7010c602559886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:19 +0000
Subject: [PATCH 18/79] fix: support enumerations of any size as union
 discriminators

---
 include/xtypes/UnionType.hpp | 79 ++++++++++++++++++++++++++++--------
 1 file changed, 62 insertions(+), 17 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 2be00a6..30bd938 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -520,6 +520,38 @@ protected:
     }
 
     /// \brief This method verifies the validity of a given label.
+    static bool is_allowed_label(
+            const DynamicType& enumeration,
+            int64_t label)
+    {
+        // The kind is common to all the enumeration sizes
+        switch (enumeration.memory_size())
+        {
+            case sizeof(uint8_t):
+                return static_cast<const EnumerationType<uint8_t>&>(enumeration).is_allowed_value(label);
+            case sizeof(uint16_t):
+                return static_cast<const EnumerationType<uint16_t>&>(enumeration).is_allowed_value(label);
+            default:
+                return static_cast<const EnumerationType<uint32_t>&>(enumeration).is_allowed_value(label);
+        }
+    }
+
+    static uint32_t enumerator_value(
+            const DynamicType& enumeration,
+            const std::string& enumerator)
+    {
+        // The kind is common to all the enumeration sizes
+        switch (enumeration.memory_size())
+        {
+            case sizeof(uint8_t):
+                return static_cast<const EnumerationType<uint8_t>&>(enumeration).value(enumerator);
+            case sizeof(uint16_t):
+                return static_cast<const EnumerationType<uint16_t>&>(enumeration).value(enumerator);
+            default:
+                return static_cast<const EnumerationType<uint32_t>&>(enumeration).value(enumerator);
+        }
+    }
+
     void check_label_value(
          [[maybe_unused]] int64_t label)
     {
@@ -534,9 +566,8 @@ protected:
 
         if (type->kind() == TypeKind::ENUMERATION_TYPE)
         {
-            [[maybe_unused]] EnumerationType<uint32_t>* enum_type = static_cast<EnumerationType<uint32_t>*>(type);
             xtypes_assert(
-                enum_type->is_allowed_value(label),
+                is_allowed_label(*type, label),
                 "Value '" << label << "' isn't allowed by the discriminator enumeration '" << type->name() << "'");
         }
     }
@@ -634,10 +665,7 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t lvalue = *reinterpret_cast<uint32_t*>(label_instance);
-                int64_t new_value = static_cast<int64_t>(lvalue);
-                current_label(instance, new_value);
+                current_label(instance, current_label(type, label_instance));
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -747,10 +775,18 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t lvalue = static_cast<uint32_t>(new_value);
-                uint32_t& value = *reinterpret_cast<uint32_t*>(instance);
-                value = lvalue;
+                // The kind is common to all the enumeration sizes
+                switch (disc_->type().memory_size())
+                {
+                    case sizeof(uint8_t):
+                        *reinterpret_cast<uint8_t*>(instance) = static_cast<uint8_t>(new_value);
+                        break;
+                    case sizeof(uint16_t):
+                        *reinterpret_cast<uint16_t*>(instance) = static_cast<uint16_t>(new_value);
+                        break;
+                    default:
+                        *reinterpret_cast<uint32_t*>(instance) = static_cast<uint32_t>(new_value);
+                }
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -841,9 +877,18 @@ protected:
             break;
             case TypeKind::ENUMERATION_TYPE:
             {
-                // TODO: If other enumeration types are added, switch again.
-                uint32_t value = *reinterpret_cast<const uint32_t*>(instance);
-                disc_value = shrink_label(value, type.memory_size());
+                // The kind is common to all the enumeration sizes
+                switch (type.memory_size())
+                {
+                    case sizeof(uint8_t):
+                        disc_value = *reinterpret_cast<const uint8_t*>(instance);
+                        break;
+                    case sizeof(uint16_t):
+                        disc_value = *reinterpret_cast<const uint16_t*>(instance);
+                        break;
+                    default:
+                        disc_value = *reinterpret_cast<const uint32_t*>(instance);
+                }
             }
             break;
             case TypeKind::ALIAS_TYPE:
@@ -1120,7 +1165,6 @@ protected:
                     break;
                     case TypeKind::ENUMERATION_TYPE:
                     {
-                        // TODO: If other enumeration types are added, switch again.
                         uint32_t value = std::strtoull(label.c_str(), nullptr, base);
                         if (value == 0)
                         {
@@ -1130,9 +1174,10 @@ protected:
                             if (new_s.find("*") != std::string::npos)
                             {
                                 // Get the Enum value
-                                const EnumerationType<uint32_t>& enum_type =
-                                        static_cast<const EnumerationType<uint32_t>&>(disc_->type());
-                                value = enum_type.value(label);
+                                const DynamicType& type = disc_->type().kind() == TypeKind::ALIAS_TYPE
+                                        ? static_cast<const AliasType&>(disc_->type()).rget()
+                                        : disc_->type();
+                                value = enumerator_value(type, label);
                             }
                         }
                         result.emplace_back(static_cast<int64_t>(value));
-- 
2.43.0


From 275f7492e15f706eecbadf17656d5ee3c67d8524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 19/79] fix: union labels of signed discriminators and
 selection by discriminator

---
 include/xtypes/UnionType.hpp | 60 ++++++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 10 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 30bd938..c5e76f4 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -214,7 +214,7 @@ public:
         {
             if (pair.second == member && pair.first != default_value_)
             {
-                result.push_back(pair.first);
+                result.push_back(label_value(disc()->type(), pair.first));
             }
         }
         return result;
@@ -519,7 +519,39 @@ protected:
         return result;
     }
 
-    /// \brief This method verifies the validity of a given label.
+    /// \brief Value that a stored label has in the type of the discriminator.
+    static int64_t label_value(
+            const DynamicType& type,
+            int64_t label)
+    {
+        switch (type.kind())
+        {
+            case TypeKind::INT_8_TYPE:
+                return static_cast<int8_t>(label);
+            case TypeKind::INT_16_TYPE:
+                return static_cast<int16_t>(label);
+            case TypeKind::INT_32_TYPE:
+                return static_cast<int32_t>(label);
+            case TypeKind::CHAR_8_TYPE:
+                return static_cast<char>(label);
+            case TypeKind::WIDE_CHAR_TYPE:
+                return static_cast<wchar_t>(label);
+            case TypeKind::ALIAS_TYPE:
+                return label_value(static_cast<const AliasType&>(type).rget(), label);
+            default:
+                return label;
+        }
+    }
+
+    /// \brief Check if a value can be represented, signed or unsigned, with the size of the discriminator.
+    bool fits_discriminator(
+            int64_t value) const
+    {
+        size_t bits = disc()->type().memory_size() * 8;
+        return bits >= 64 || (value >= -(int64_t(1) << (bits - 1)) && value < (int64_t(1) << bits));
+    }
+
+    /// \brief Check if the enumeration used as discriminator allows the given value.
     static bool is_allowed_label(
             const DynamicType& enumeration,
             int64_t label)
@@ -536,6 +568,7 @@ protected:
         }
     }
 
+    /// \brief Value of an enumerator of the enumeration used as discriminator.
     static uint32_t enumerator_value(
             const DynamicType& enumeration,
             const std::string& enumerator)
@@ -552,6 +585,7 @@ protected:
         }
     }
 
+    /// \brief This method verifies the validity of a given label.
     void check_label_value(
          [[maybe_unused]] int64_t label)
     {
@@ -909,7 +943,7 @@ protected:
             uint8_t* instance,
             uint8_t* label_instance)
     {
-        int64_t new_value = current_label(type, label_instance);
+        int64_t new_value = label_value(type, current_label(type, label_instance));
         return select_disc(instance, new_value);
     }
 
@@ -918,24 +952,30 @@ protected:
             uint8_t* instance,
             int64_t value) const
     {
-        if (labels_.count(value) == 0 &&
-                !has_default_)
+        // The labels are stored shrunk to the size of the discriminator.
+        bool fits = fits_discriminator(value);
+        auto selected = labels_.find(fits ? shrink_label(value, disc()->type().memory_size()) : value);
+        if (!fits || selected == labels_.end())
         {
+            xtypes_assert(!has_default_, "Value '" << value << "' isn't a label of the UnionType '" << name() << "'.");
             return false;
         }
 
         // Retrieve current label.
-        int64_t current_value = current_label(disc()->type(), instance);
+        auto current = labels_.find(current_label(disc()->type(), instance));
 
-        if (0 < labels_.count(current_value) &&
-                0 != labels_.at(current_value).compare(labels_.at(
-                    value)))
+        if (current == labels_.end())
+        {
+            const Member& member = AggregationType::member(selected->second);
+            member.type().construct_instance(instance + member.offset());
+        }
+        else if (current->second != selected->second)
         {
             xtypes_assert(false, "Cannot switch member using direct disciminator value.");
             return false;
         }
 
-        current_label(instance, value);
+        current_label(instance, selected->first);
         return true;
     }
 
-- 
2.43.0


From 4669526ce687c9c6e22691922fc20395240218be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 20/79] fix: access to the selected member of a union keeps its
 discriminator

---
 include/xtypes/DynamicData.hpp |  5 ++++-
 include/xtypes/UnionType.hpp   | 18 ++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 342317e..120de42 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -734,7 +734,10 @@ protected:
                 xtypes_assert(member_name == union_type.get_current_selection(instance_).name(),
                         "Cannot retrieve a non-selected case member.");
             }
-            union_type.select_case(instance_, member_name);
+            else
+            {
+                union_type.select_case(instance_, member_name);
+            }
         }
 
         const Member& member = aggregation.member(member_name);
diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index c5e76f4..e0f1b4b 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -989,8 +989,10 @@ protected:
             Member* member = &const_cast<Member&>(AggregationType::member(pair.second));
             if (member->name() == case_member_name)
             {
-                activate_member(instance, member);
-                current_label(instance, pair.first);
+                if (activate_member(instance, member)) // Otherwise, its current label is kept
+                {
+                    current_label(instance, pair.first);
+                }
                 return true;
             }
         }
@@ -1004,8 +1006,10 @@ protected:
         if (has_default_)
         {
             Member* def = &const_cast<Member&>(member(labels_.at(default_)));
-            activate_member(instance, def);
-            current_label(instance, default_);
+            if (activate_member(instance, def))
+            {
+                current_label(instance, default_);
+            }
             return true;
         }
         return false;
@@ -1033,7 +1037,8 @@ protected:
 
     /// \brief This method destroys previous active member, if any, and constructs the new one,
     /// setting it as active.
-    void activate_member(
+    /// \return true if the active member changed.
+    bool activate_member(
             uint8_t* instance,
             Member* member)
     {
@@ -1043,12 +1048,13 @@ protected:
             Member* active_member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
             if (active_member == member)
             {
-                return;
+                return false;
             }
             active_member->type().destroy_instance(instance + active_member->offset());
         }
 
         member->type().construct_instance(instance + member->offset());
+        return true;
     }
 
     /// \brief This method converts labels represented as strings to the internal int64_t representation.
-- 
2.43.0


From da59a22e89567d331730d72ea853052a68727a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 21/79] fix: check and copy one-member structs keeping the
 order of the types

---
 include/xtypes/ArrayType.hpp      | 5 ++++-
 include/xtypes/EnumeratedType.hpp | 5 ++++-
 include/xtypes/MapType.hpp        | 5 ++++-
 include/xtypes/PrimitiveType.hpp  | 5 ++++-
 include/xtypes/SequenceType.hpp   | 5 ++++-
 include/xtypes/StringType.hpp     | 5 ++++-
 include/xtypes/StructType.hpp     | 8 ++++++--
 include/xtypes/UnionType.hpp      | 5 ++++-
 8 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index ee653e9..2ac991a 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -251,7 +251,10 @@ public:
 
         if (other.kind() == TypeKind::STRUCTURE_TYPE) // Resolve one-member structs
         {
-            return other.is_compatible(*this);
+            const StructType& other_struct = static_cast<const StructType&>(other);
+            return other_struct.members().size() == 1
+                   ? is_compatible(other_struct.members().at(0).type())
+                   : TypeConsistency::NONE;
         }
 
         if (other.kind() != TypeKind::ARRAY_TYPE)
diff --git a/include/xtypes/EnumeratedType.hpp b/include/xtypes/EnumeratedType.hpp
index 6b4587f..f533217 100644
--- a/include/xtypes/EnumeratedType.hpp
+++ b/include/xtypes/EnumeratedType.hpp
@@ -90,7 +90,10 @@ public:
 
         if (other.kind() == TypeKind::STRUCTURE_TYPE) // Resolve one-member structs
         {
-            return other.is_compatible(*this);
+            const StructType& other_struct = static_cast<const StructType&>(other);
+            return other_struct.members().size() == 1
+                   ? is_compatible(other_struct.members().at(0).type())
+                   : TypeConsistency::NONE;
         }
 
         if (other.is_enumerated_type())
diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index ac419c6..96a6bdb 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -178,7 +178,10 @@ public:
 
         if (other.kind() == TypeKind::STRUCTURE_TYPE) // Resolve one-member structs
         {
-            return other.is_compatible(*this);
+            const StructType& other_struct = static_cast<const StructType&>(other);
+            return other_struct.members().size() == 1
+                   ? is_compatible(other_struct.members().at(0).type())
+                   : TypeConsistency::NONE;
         }
 
         if (other.kind() != TypeKind::MAP_TYPE)
diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index 346abca..c931eb6 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -249,7 +249,10 @@ protected:
 
         if (other.kind() == TypeKind::STRUCTURE_TYPE) // Resolve one-member structs
         {
-            return other.is_compatible(*this);
+            const StructType& other_struct = static_cast<const StructType&>(other);
+            return other_struct.members().size() == 1
+                   ? is_compatible(other_struct.members().at(0).type())
+                   : TypeConsistency::NONE;
         }
 
         if (!other.is_primitive_type())
diff --git a/include/xtypes/SequenceType.hpp b/include/xtypes/SequenceType.hpp
index c1dc565..d7c70a9 100644
--- a/include/xtypes/SequenceType.hpp
+++ b/include/xtypes/SequenceType.hpp
@@ -162,7 +162,10 @@ public:
 
         if (other.kind() == TypeKind::STRUCTURE_TYPE) // Resolve one-member structs
         {
-            return other.is_compatible(*this);
+            const StructType& other_struct = static_cast<const StructType&>(other);
+            return other_struct.members().size() == 1
+                   ? is_compatible(other_struct.members().at(0).type())
+                   : TypeConsistency::NONE;
         }
 
         if (other.kind() != TypeKind::SEQUENCE_TYPE)
diff --git a/include/xtypes/StringType.hpp b/include/xtypes/StringType.hpp
index 253646b..03df057 100644
--- a/include/xtypes/StringType.hpp
+++ b/include/xtypes/StringType.hpp
@@ -136,7 +136,10 @@ public:
 
         if (other.kind() == TypeKind::STRUCTURE_TYPE) // Resolve one-member structs
         {
-            return other.is_compatible(*this);
+            const StructType& other_struct = static_cast<const StructType&>(other);
+            return other_struct.members().size() == 1
+                   ? is_compatible(other_struct.members().at(0).type())
+                   : TypeConsistency::NONE;
         }
 
         if (other.kind() != KIND)
diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index dd6ccdf..e257267 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -121,7 +121,8 @@ public:
 
         if (members().size() == 1) // Resolve one-member struct compatibility
         {
-            if (other.kind() != TypeKind::STRUCTURE_TYPE)
+            if (other.kind() != TypeKind::STRUCTURE_TYPE
+                    || static_cast<const StructType&>(other).members().size() != 1)
             {
                 members().at(0).type().copy_instance_from_type(target, source, other);
                 return;
@@ -209,7 +210,10 @@ public:
 
         if (members().size() == 1) // Resolve one-member struct compatibilty
         {
-            return other.is_compatible(members().at(0).type());
+            const bool same_case = other.kind() == TypeKind::STRUCTURE_TYPE
+                    && static_cast<const StructType&>(other).members().size() == 1;
+            return members().at(0).type().is_compatible(
+                same_case ? static_cast<const StructType&>(other).members().at(0).type() : other);
         }
 
         if (other.kind() != TypeKind::STRUCTURE_TYPE)
diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index e0f1b4b..07df33e 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -390,7 +390,10 @@ public:
 
         if (other.kind() == TypeKind::STRUCTURE_TYPE) // Resolve one-member structs
         {
-            return other.is_compatible(*this);
+            const StructType& other_struct = static_cast<const StructType&>(other);
+            return other_struct.members().size() == 1
+                   ? is_compatible(other_struct.members().at(0).type())
+                   : TypeConsistency::NONE;
         }
 
         if (other.kind() != TypeKind::UNION_TYPE)
-- 
2.43.0


From 7ac4e873459a8cd9f94841b79f2e351d9c705cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 22/79] fix: collections of different primitive contents are
 converted, not copied as bytes

---
 include/xtypes/ArrayType.hpp        | 4 ++--
 include/xtypes/MapInstance.hpp      | 9 +++------
 include/xtypes/SequenceInstance.hpp | 4 ++--
 3 files changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 2ac991a..94bb125 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -160,7 +160,7 @@ public:
         size_t other_block_size = other_array.content_type().memory_size();
         size_t min_dimension = std::min(dimension_, other_array.dimension_);
 
-        if (content_type().is_constructed_type() || block_size != other_block_size)
+        if (content_type().is_constructed_type() || content_type().kind() != other_array.content_type().kind())
         {
             uint32_t done = 0;
             try
@@ -182,7 +182,7 @@ public:
                 throw;
             }
         }
-        else //optimization when the type is primitive with same block_size
+        else //optimization when both contents are the same primitive type
         {
             std::memcpy(target, source, min_dimension * block_size);
         }
diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index a3df6f7..5152ffd 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -277,9 +277,6 @@ private:
             const MapInstance& other,
             uint32_t bounds)
     {
-        size_t other_first_size = other.content_->first().memory_size();
-        size_t other_second_size = other.content_->second().memory_size();
-
         // Check bytes to copy
         uint32_t min_capacity = std::min(capacity_, other.capacity_);
         if (min_capacity == 0)
@@ -302,8 +299,8 @@ private:
 
         if (content_->first().is_constructed_type()
                 || content_->second().is_constructed_type()
-                || content_->first().memory_size() != other_first_size
-                || content_->second().memory_size() != other_second_size)
+                || content_->first().kind() != other.content_->first().kind()
+                || content_->second().kind() != other.content_->second().kind())
         {
             for (uint32_t i = 0; i < min_size; i++)
             {
@@ -314,7 +311,7 @@ private:
                 size_ = i + 1;
             }
         }
-        else //optimization when the pair are both primitive with same size
+        else //optimization when the pairs are made of the same primitive types
         {
             std::memcpy(memory_, other.memory_, min_size * block_size_);
         }
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 4c598c2..26d6ade 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -310,7 +310,7 @@ private:
             realloc(min_size, bounds);
         }
 
-        if (content_->is_constructed_type() || block_size_ != other_block_size)
+        if (content_->is_constructed_type() || content_->kind() != other.content_->kind())
         {
             for (uint32_t i = 0; i < min_size; i++)
             {
@@ -321,7 +321,7 @@ private:
                 size_ = i + 1;
             }
         }
-        else //optimization when the type is primitive with same block_size
+        else //optimization when both contents are the same primitive type
         {
             std::memcpy(memory_, other.memory_, min_size * block_size_);
         }
-- 
2.43.0


From 33277259b7e967151e132c1a825c886180b2b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 23/79] fix: an array copied from a shorter one constructs the
 remaining elements

---
 include/xtypes/ArrayType.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 94bb125..11be3cd 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -186,6 +186,11 @@ public:
         {
             std::memcpy(target, source, min_dimension * block_size);
         }
+
+        for (uint32_t i = min_dimension; i < dimension_; i++) // Elements without correspondence in the source
+        {
+            content_type().construct_instance(target + i * block_size);
+        }
     }
 
     virtual void move_instance(
-- 
2.43.0


From c22fa1db9fd09c73bc5f9ce0ebb414bea68b2b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 24/79] fix: the name of a multidimensional array includes all
 its dimensions

---
 include/xtypes/ArrayType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 11be3cd..3adbd16 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -89,7 +89,7 @@ public:
         {
             content_ = DynamicType::Ptr(content);
         }
-        name_ = "array_" + std::to_string(dimension_) + "_" + content.name();
+        name_ = "array_" + std::to_string(dimension_) + "_" + content_->name();
     }
 
     /// \brief Dimension of the array.
-- 
2.43.0


From c93a5d7b6b1f7e8292b17fa1154c090255085bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 25/79] fix: read the source enumeration with its own size when
 converting it

---
 include/xtypes/PrimitiveType.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index c931eb6..0e729e7 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -170,8 +170,21 @@ protected:
             case TypeKind::UINT_16_TYPE:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint16_t*>(source);
                 break;
-            case TypeKind::UINT_32_TYPE:
             case TypeKind::ENUMERATION_TYPE:
+                // The kind is common to all the enumeration sizes
+                switch (other.memory_size())
+                {
+                    case sizeof(uint8_t):
+                        *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint8_t*>(source);
+                        break;
+                    case sizeof(uint16_t):
+                        *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint16_t*>(source);
+                        break;
+                    default:
+                        *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint32_t*>(source);
+                }
+                break;
+            case TypeKind::UINT_32_TYPE:
                 *reinterpret_cast<T*>(target) = *reinterpret_cast<const uint32_t*>(source);
                 break;
             case TypeKind::UINT_64_TYPE:
-- 
2.43.0


From 3f6f9a96920b9b4a3a09e4ccaf076d90450fa53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:50 +0000
Subject: [PATCH 26/79] fix: check the compatibility with an alias in the order
 of the types

---
 include/xtypes/PrimitiveType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/PrimitiveType.hpp b/include/xtypes/PrimitiveType.hpp
index 0e729e7..4a33bef 100644
--- a/include/xtypes/PrimitiveType.hpp
+++ b/include/xtypes/PrimitiveType.hpp
@@ -257,7 +257,7 @@ protected:
         if (other.kind() == TypeKind::ALIAS_TYPE)
         {
             const AliasType& other_alias = static_cast<const AliasType&>(other);
-            return other_alias.is_compatible(*this);
+            return is_compatible(other_alias.rget());
         }
 
         if (other.kind() == TypeKind::STRUCTURE_TYPE) // Resolve one-member structs
-- 
2.43.0


From 6f8e817486002c3a6e0c13c21b83bde34c82cca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:17 +0000
Subject: [PATCH 27/79] fix: convert maps whose contents only differ in the
 aliases that name them

---
 include/xtypes/MapType.hpp | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index 96a6bdb..bc215cf 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -110,8 +110,7 @@ public:
         }
 
         xtypes_assert(
-            other.kind() == TypeKind::MAP_TYPE
-            && content_type().name() == static_cast<const MapType&>(other).content_type().name(),
+            other.kind() == TypeKind::MAP_TYPE && has_same_content(static_cast<const MapType&>(other)),
             "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
 
         (void) other;
@@ -275,6 +274,28 @@ public:
 
 protected:
 
+    /// \brief Check if other map holds the same pairs, whatever the aliases that name their types.
+    bool has_same_content(
+            const MapType& other) const
+    {
+        if (content_type().name() == other.content_type().name())
+        {
+            return true;
+        }
+
+        const DynamicType& key = static_cast<const PairType&>(content_type()).first();
+        const DynamicType& other_key = static_cast<const PairType&>(other.content_type()).first();
+
+        return resolve_alias(key).name() == resolve_alias(other_key).name()
+               && content_type().is_compatible(other.content_type()) == TypeConsistency::EQUALS;
+    }
+
+    static const DynamicType& resolve_alias(
+            const DynamicType& type)
+    {
+        return type.kind() == TypeKind::ALIAS_TYPE ? static_cast<const AliasType&>(type).rget() : type;
+    }
+
     std::shared_ptr<DynamicType> clone() const override
     {
         return std::make_shared<MapType>(*this);
-- 
2.43.0


From d25acef153f48b2a513b8ab3ff1490b79cbe8405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:27 +0000
Subject: [PATCH 28/79] fix: convert unions from aliases, unions with other
 labels and one-member structs

---
 include/xtypes/UnionType.hpp | 76 +++++++++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 19 deletions(-)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 07df33e..375a335 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -23,6 +23,7 @@
 #include <xtypes/EnumerationType.hpp>
 #include <xtypes/StringConversion.hpp>
 
+#include <algorithm>
 #include <string>
 #include <map>
 #include <vector>
@@ -293,35 +294,72 @@ public:
     virtual void copy_instance_from_type(
             uint8_t* target,
             const uint8_t* source,
-            const DynamicType& other) const override
+            const DynamicType& arg_other) const override
     {
-        if (other.kind() == TypeKind::ALIAS_TYPE)
+        const DynamicType& other = (arg_other.kind() == TypeKind::ALIAS_TYPE)
+                ? static_cast<const AliasType&>(arg_other).rget()
+                : arg_other;
+
+        if (other.kind() == TypeKind::STRUCTURE_TYPE)
         {
-            [[maybe_unused]] const AliasType& alias = static_cast<const AliasType&>(other);
+            // Resolve one-member struct compatibility
+            const StructType& struct_type = static_cast<const StructType&>(other);
+            if (struct_type.members().size() == 1)
+            {
+                copy_instance_from_type(target, source, struct_type.members().at(0).type());
+                return;
+            }
+        }
 
-            xtypes_assert(alias.rget().kind() == TypeKind::UNION_TYPE,
-                    "Cannot copy data from different types: From '" << alias.rget().name() << "' to '" << name() <<
-                    "'.");
+        xtypes_assert(other.kind() == TypeKind::UNION_TYPE,
+                "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
+
+        const UnionType& other_union = static_cast<const UnionType&>(other);
+        const int64_t other_label = other_union.current_label(other_union.disc()->type(), source);
+        auto selected = other_union.labels_.find(other_label);
+
+        if (selected == other_union.labels_.end()) // There isn't a selected member in the source
+        {
+            construct_instance(target);
+            return;
         }
-        else
+
+        // The members of both unions correspond by their position.
+        const Member& other_member = static_cast<const AggregationType&>(other_union).member(selected->second);
+        size_t index = 1;
+        while (other_union.members().at(index).name() != other_member.name())
         {
-            xtypes_assert(other.kind() == TypeKind::UNION_TYPE,
-                    "Cannot copy data from different types: From '" << other.name() << "' to '" << name() << "'.");
+            ++index;
         }
-        const UnionType& other_union = static_cast<const UnionType&>(other);
 
-        Member* disc_ = disc();
-        disc_->type().copy_instance_from_type(target, source, other_union.disc()->type());
+        if (index >= members().size()) // This union doesn't have the member selected in the source
+        {
+            construct_instance(target);
+            return;
+        }
 
-        int64_t label = current_label(disc_->type(), target);
-        if (0 < labels_.count(label))
+        // Keep the discriminator if it selects the same member, otherwise use a label of that member.
+        const Member& member = members().at(index);
+        const int64_t value = label_value(other_union.disc()->type(), other_label);
+        auto label = fits_discriminator(value)
+                ? labels_.find(shrink_label(value, disc()->type().memory_size()))
+                : labels_.end();
+        if (label == labels_.end() || label->second != member.name())
         {
-            Member* member = &const_cast<Member&>(AggregationType::member(labels_.at(label)));
-            member->type().copy_instance_from_type(
-                target + member->offset(),
-                source + member->offset(),
-                member->type());
+            label = std::find_if(labels_.begin(), labels_.end(), [&](const std::pair<const int64_t, std::string>& pair)
+                            {
+                                return pair.second == member.name();
+                            });
         }
+        xtypes_assert(label != labels_.end(),
+                "The case member '" << member.name() << "' of '" << name() << "' doesn't have labels.");
+
+        member.type().copy_instance_from_type(
+            target + member.offset(),
+            source + other_member.offset(),
+            other_member.type());
+        disc()->type().construct_instance(target);
+        current_label(target, label->first);
     }
 
     virtual void move_instance(
-- 
2.43.0


From 717c88f9f65743d39ad4a5a1e6dbc75ded8c065c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 29/79] fix: an enumeration that reaches its maximum value
 refuses more enumerators

---
 include/xtypes/EnumerationType.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/EnumerationType.hpp b/include/xtypes/EnumerationType.hpp
index ad586f2..e704081 100644
--- a/include/xtypes/EnumerationType.hpp
+++ b/include/xtypes/EnumerationType.hpp
@@ -20,6 +20,10 @@
 
 #include <xtypes/EnumeratedType.hpp>
 
+#include <cstdint>
+#include <limits>
+#include <string>
+
 namespace eprosima {
 namespace xtypes {
 
@@ -34,17 +38,19 @@ public:
             T value)
     {
         // New values must be always greater than the previous ones
-        xtypes_assert(value >= next_value_,
+        xtypes_assert(uint64_t(value) >= next_value_,
             "Expected a value greater than " + std::to_string(next_value_) + " but received " + std::to_string(value));
         EnumeratedType<T>::insert_enumerator(name, value);
-        next_value_ = value + 1;
+        next_value_ = uint64_t(value) + 1;
         return *this;
     }
 
     EnumerationType& add_enumerator(
             const std::string& name)
     {
-        return add_enumerator(name, next_value_);
+        xtypes_assert(next_value_ <= std::numeric_limits<T>::max(),
+            "There aren't more values available in '" + this->name() + "' for the enumerator '" + name + "'.");
+        return add_enumerator(name, static_cast<T>(next_value_));
     }
 
     T default_value() const
@@ -71,7 +77,8 @@ public:
     }
 
 protected:
-    T next_value_ = T();
+    // Minimum value of the next enumerator. It is wider than T to not overflow after the maximum value.
+    uint64_t next_value_ = 0;
 
 };
 
-- 
2.43.0


From 9a3ef1c8fc888d70349d7beba79780eabb1aed6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 30/79] fix: the copy of an enumeration is an enumeration and
 keeps its next value

---
 include/xtypes/EnumerationType.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/xtypes/EnumerationType.hpp b/include/xtypes/EnumerationType.hpp
index e704081..8e24c94 100644
--- a/include/xtypes/EnumerationType.hpp
+++ b/include/xtypes/EnumerationType.hpp
@@ -77,6 +77,14 @@ public:
     }
 
 protected:
+    std::shared_ptr<DynamicType> clone() const override
+    {
+        auto clon = std::make_shared<EnumerationType>(this->name());
+        clon->values_ = this->values_;
+        clon->next_value_ = next_value_;
+        return clon;
+    }
+
     // Minimum value of the next enumerator. It is wider than T to not overflow after the maximum value.
     uint64_t next_value_ = 0;
 
-- 
2.43.0


From b818f19717a7444ac59ba573d148c0850a543b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:43 +0000
Subject: [PATCH 31/79] fix: default_value() of an enumeration returns its
 first enumerator

---
 include/xtypes/EnumerationType.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/EnumerationType.hpp b/include/xtypes/EnumerationType.hpp
index 8e24c94..1fa279a 100644
--- a/include/xtypes/EnumerationType.hpp
+++ b/include/xtypes/EnumerationType.hpp
@@ -20,6 +20,7 @@
 
 #include <xtypes/EnumeratedType.hpp>
 
+#include <algorithm>
 #include <cstdint>
 #include <limits>
 #include <string>
@@ -62,8 +63,15 @@ public:
         }
         else
         {
-            auto it = EnumeratedType<T>::values_.begin();
-            return it.second;
+            // The first enumerator has always the lowest value
+            auto it = std::min_element(
+                EnumeratedType<T>::values_.begin(),
+                EnumeratedType<T>::values_.end(),
+                [](const std::pair<const std::string, T>& a, const std::pair<const std::string, T>& b)
+                {
+                    return a.second < b.second;
+                });
+            return it->second;
         }
     }
 
-- 
2.43.0


From ae9bd01928e6a9a1ac0d34f47a0cb10bd01fd17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 32/79] fix: converted strings longer than the buffer, and
 incomplete characters

---
 include/xtypes/StringConversion.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/StringConversion.hpp b/include/xtypes/StringConversion.hpp
index 91d495e..6ed6b31 100644
--- a/include/xtypes/StringConversion.hpp
+++ b/include/xtypes/StringConversion.hpp
@@ -129,8 +129,12 @@ std::basic_string<out> code_conversion_tool(const std::basic_string_view<in>& in
                 }
                 [[fallthrough]];
             case codecvt_base::partial:
-                // insert current buffer content
-                output.append(buffer, buffer_size);
+                // insert current buffer content, that isn't always full
+                output.append(buffer, to_next - buffer);
+                if (to_next == buffer)
+                {
+                    throw std::range_error("encountered an incomplete character at the end of the input");
+                }
                 break;
 
             case codecvt_base::error:
-- 
2.43.0


From 89684f814814a0e7c64c0442688cefffbaedd676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:09 +0000
Subject: [PATCH 33/79] fix: assigning an iterator changes also the collection
 type that it iterates

---
 include/xtypes/DynamicData.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index 120de42..e73b415 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -446,6 +446,7 @@ public:
         Iterator& operator = (
                 const Iterator& other)
         {
+            type_ = other.type_;
             instance_ = other.instance_;
             index_ = other.index_;
             return *this;
-- 
2.43.0


From 37a11e295620f0f0835dc0f08cd5a2eebc6a0430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:30 +0000
Subject: [PATCH 34/79] fix: to_string() of wide characters

---
 include/xtypes/DynamicDataImpl.hpp | 32 ++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/DynamicDataImpl.hpp b/include/xtypes/DynamicDataImpl.hpp
index 02fd2a6..78a7660 100644
--- a/include/xtypes/DynamicDataImpl.hpp
+++ b/include/xtypes/DynamicDataImpl.hpp
@@ -121,6 +121,27 @@ namespace xtypes {
     }\
 }
 
+/// \brief UTF-16 representation of a wide string, whose characters may hold code points of more than 16 bits.
+inline std::u16string wide_to_u16string(
+        const std::wstring& wide)
+{
+    std::u16string result;
+    for (wchar_t character : wide)
+    {
+        const uint32_t code = static_cast<uint32_t>(character);
+        if (sizeof(wchar_t) > sizeof(char16_t) && code > 0xFFFF)
+        {
+            result += static_cast<char16_t>(0xD800 + ((code - 0x10000) >> 10));
+            result += static_cast<char16_t>(0xDC00 + ((code - 0x10000) & 0x3FF));
+        }
+        else
+        {
+            result += static_cast<char16_t>(code);
+        }
+    }
+    return result;
+}
+
 inline std::string ReadableDynamicDataRef::to_string() const
 {
     std::stringstream ss;
@@ -145,13 +166,20 @@ inline std::string ReadableDynamicDataRef::to_string() const
                 ss << "<" << type_name << ">  " << node.data().value<char>();
                 break;
             case TypeKind::CHAR_16_TYPE:
-            case TypeKind::WIDE_CHAR_TYPE:
                 {
                     ss << "<" << type_name << ">  ";
                     auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, node.data().value<char16_t>()));
                     ss << std::string(aux.begin(), aux.end());
                     break;
                 }
+            case TypeKind::WIDE_CHAR_TYPE:
+                {
+                    ss << "<" << type_name << ">  ";
+                    auto aux = code_conversion_tool<XTYPES_CHAR>(
+                        wide_to_u16string(std::wstring(1, node.data().value<wchar_t>())));
+                    ss << std::string(aux.begin(), aux.end());
+                    break;
+                }
             case TypeKind::INT_8_TYPE:
                 ss << "<" << type_name << ">  " << node.data().value<int8_t>();
                 break;
@@ -192,7 +220,7 @@ inline std::string ReadableDynamicDataRef::to_string() const
                 {
                     ss << "<" << type_name << ">  ";
                     auto aux = node.data().value<std::wstring>();
-                    auto aux2 = code_conversion_tool<XTYPES_CHAR>(std::u16string(aux.begin(), aux.end()));
+                    auto aux2 = code_conversion_tool<XTYPES_CHAR>(wide_to_u16string(aux));
                     ss << std::string(aux2.begin(), aux2.end());
                     break;
                 }
-- 
2.43.0


From 01faacb4b2da220a2a81db5f1923d6036d274c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 35/79] fix: asking for an unknown submodule doesn't add it

---
 include/xtypes/idl/Module.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 864ff06..05080c1 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -68,7 +68,8 @@ public:
     std::shared_ptr<Module> submodule(
             const std::string& submodule)
     {
-        return inner_[submodule];
+        auto it = inner_.find(submodule);
+        return it != inner_.end() ? it->second : nullptr;
     }
 
     size_t submodule_size()
@@ -116,7 +117,8 @@ public:
     Module& operator [] (
             const std::string& submodule)
     {
-        return *inner_[submodule];
+        xtypes_assert(has_submodule(submodule), "Cannot find submodule '" + submodule + "'.");
+        return *inner_.at(submodule);
     }
 
     const Module& operator [] (
-- 
2.43.0


From 45411bc3b12ac52eeb0f7b5f11c0ef1ef4691130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 36/79] fix: has_enum_32() solves the scope of the name

---
 include/xtypes/idl/Module.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 05080c1..68c036a 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -487,7 +487,13 @@ public:
     bool has_enum_32(
             const std::string& name) const
     {
-        return enumerations_32_.count(name) > 0;
+        // Solve scope
+        PairModuleSymbol module = resolve_scope(name);
+        if (module.first == nullptr)
+        {
+            return false;
+        }
+        return module.first->enumerations_32_.count(module.second) > 0;
     }
 
     const EnumerationType<uint32_t>& enum_32(
-- 
2.43.0


From 1935e5e420cc09dd1d4bd17237937aa275c90259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 37/79] fix: a scoped name is only resolved inside its scope

---
 include/xtypes/idl/Module.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 68c036a..3fa1b0a 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -715,7 +715,14 @@ protected:
         {
             if (symbol_name.find("::") == 0) // Looking for root
             {
-                if (outer_ == nullptr) // We are the root, now go down.
+                if (!first) // Empty scope in the middle of the name
+                {
+                    PairModuleSymbol pair;
+                    pair.first = nullptr;
+                    pair.second = original_name;
+                    return pair;
+                }
+                else if (outer_ == nullptr) // We are the root, now go down.
                 {
                     return resolve_scope(symbol_name.substr(2), original_name);
                 }
@@ -767,7 +774,8 @@ protected:
             return std::make_pair<const Module*, std::string>(this, std::move(name));
         }
 
-        if (outer_ != nullptr)
+        // The scope of a scoped name is already solved, only simple names are looked for in the outer modules.
+        if (outer_ != nullptr && first)
         {
             return outer_->resolve_scope(symbol_name, original_name, true);
         }
-- 
2.43.0


From f379158a1d86e2fc429a952ff5bebb5633bb31c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 38/79] fix: adding a symbol depends only on the names of its
 own module

---
 include/xtypes/idl/Module.hpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 3fa1b0a..93a60d2 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -227,6 +227,11 @@ public:
         }
 
         std::string name = struct_type.name();
+        if (structs_.count(name) > 0)
+        {
+            return false; // Already defined.
+        }
+
         std::string name_space = scope();
         struct_type.name(name_space + (name_space.empty() ? "" : "::") + name);
         auto result = structs_.emplace(
@@ -311,6 +316,11 @@ public:
         }
 
         std::string name = union_type.name();
+        if (unions_.count(name) > 0)
+        {
+            return false; // Already defined.
+        }
+
         std::string name_space = scope();
         union_type.name(name_space + (name_space.empty() ? "" : "::") + name);
         auto result = unions_.emplace(
@@ -572,7 +582,7 @@ public:
             const DynamicType::Ptr&& type,
             const std::string& name)
     {
-        if (name.find("::") != std::string::npos || has_alias(name))
+        if (name.find("::") != std::string::npos || aliases_.count(name) > 0)
         {
             return false; // Cannot define alias with scoped name (or already defined).
         }
@@ -586,6 +596,11 @@ public:
             AliasType& alias)
     {
         std::string name = alias.name();
+        if (name.find("::") != std::string::npos || aliases_.count(name) > 0)
+        {
+            return false; // Cannot define alias with scoped name (or already defined).
+        }
+
         std::string name_space = scope();
         alias.name(name_space + (name_space.empty() ? "" : "::") + name);
         return aliases_.emplace(name, Type(*this, AliasType(alias))).second;
@@ -595,6 +610,11 @@ public:
             AliasType&& alias)
     {
         std::string name = alias.name();
+        if (name.find("::") != std::string::npos || aliases_.count(name) > 0)
+        {
+            return false; // Cannot define alias with scoped name (or already defined).
+        }
+
         std::string name_space = scope();
         alias.name(name_space + (name_space.empty() ? "" : "::") + name);
         return aliases_.emplace(name, Type(*this, std::move(alias))).second;
-- 
2.43.0


From f2b68b82a7e599ca19ab96f51e52e21858cd045b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 39/79] fix: type() of names that aren't a type or aren't in
 all the submodules

---
 include/xtypes/idl/Module.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 93a60d2..0277f8f 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -631,7 +631,11 @@ public:
         {
             for (auto [key, mod]: inner_)
             {
-                ret_type = mod.get()->type(name, recursive);
+                DynamicType::Ptr inner_type = mod.get()->type(name, recursive);
+                if (inner_type.get() != nullptr)
+                {
+                    ret_type = inner_type;
+                }
             }
         }
 
@@ -666,7 +670,7 @@ public:
             ret_type = module.first->aliases_.at(module.second).get();
         }
 
-        if (name.find("::") == 0)
+        if (name.find("::") == 0 && ret_type.get() != nullptr)
         {
             // Scope ambiguity solver was originally used, add it to the retrieved DynamicType
             ret_type->name(name);
-- 
2.43.0


From 9ade987fcbcf1fe84b76cb85f23011d87f8e9b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:48 +0000
Subject: [PATCH 40/79] fix: a replaced constant isn't an enumerator anymore

---
 include/xtypes/idl/Module.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xtypes/idl/Module.hpp b/include/xtypes/idl/Module.hpp
index 0277f8f..cd722e0 100644
--- a/include/xtypes/idl/Module.hpp
+++ b/include/xtypes/idl/Module.hpp
@@ -463,6 +463,7 @@ public:
             {
                 constants_.erase(it);
                 constants_types_.erase(constants_types_.find(name));
+                from_enum_.erase(std::remove(from_enum_.begin(), from_enum_.end(), name), from_enum_.end());
             }
         }
 
-- 
2.43.0


From 91cd5288e97e0eae12ee6a03011659988bd0e444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:19 +0000
Subject: [PATCH 41/79] fix: a boolean discriminator of a default case member
 without labels isn't the label of other member

---
 include/xtypes/UnionType.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index 375a335..ccb3fad 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -771,6 +771,12 @@ protected:
         switch (kind)
         {
             case TypeKind::BOOLEAN_TYPE:
+                if (new_value == default_value_ && labels_.count(0) + labels_.count(1) < 2)
+                {
+                    // A default case member without labels is selected by the boolean value that isn't a label.
+                    new_value = labels_.count(0);
+                }
+            // fallthrough
             case TypeKind::INT_8_TYPE:
             {
                 int8_t lvalue = static_cast<int8_t>(new_value);
@@ -885,6 +891,13 @@ protected:
         switch (type.kind())
         {
             case TypeKind::BOOLEAN_TYPE:
+                disc_value = *instance;
+                if (disc_value <= 1 && labels_.count(disc_value) == 0 && labels_.count(default_value_) != 0)
+                {
+                    // A default case member without labels is selected by the boolean value that isn't a label.
+                    disc_value = default_value_;
+                }
+            break;
             case TypeKind::INT_8_TYPE:
             {
                 int8_t value = *reinterpret_cast<const int8_t*>(instance);
-- 
2.43.0


From 8496b67c421de5f2abb700dcdf4b289849d057a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:09 +0000
Subject: [PATCH 42/79] fix: convert between maps whose key types nest aliases
 of the same types

---
 include/xtypes/MapType.hpp  |  8 +-------
 include/xtypes/PairType.hpp | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/include/xtypes/MapType.hpp b/include/xtypes/MapType.hpp
index bc215cf..baabbbe 100644
--- a/include/xtypes/MapType.hpp
+++ b/include/xtypes/MapType.hpp
@@ -286,16 +286,10 @@ protected:
         const DynamicType& key = static_cast<const PairType&>(content_type()).first();
         const DynamicType& other_key = static_cast<const PairType&>(other.content_type()).first();
 
-        return resolve_alias(key).name() == resolve_alias(other_key).name()
+        return is_same_type(key, other_key)
                && content_type().is_compatible(other.content_type()) == TypeConsistency::EQUALS;
     }
 
-    static const DynamicType& resolve_alias(
-            const DynamicType& type)
-    {
-        return type.kind() == TypeKind::ALIAS_TYPE ? static_cast<const AliasType&>(type).rget() : type;
-    }
-
     std::shared_ptr<DynamicType> clone() const override
     {
         return std::make_shared<MapType>(*this);
diff --git a/include/xtypes/PairType.hpp b/include/xtypes/PairType.hpp
index db816bf..338607b 100644
--- a/include/xtypes/PairType.hpp
+++ b/include/xtypes/PairType.hpp
@@ -20,6 +20,7 @@
 
 #include <xtypes/DynamicType.hpp>
 #include <xtypes/AliasType.hpp>
+#include <xtypes/CollectionType.hpp>
 #include <xtypes/StructType.hpp>
 
 namespace eprosima {
@@ -243,6 +244,40 @@ protected:
     friend class MapInstance;
 };
 
+/// \brief Check if both types are the same, whatever the aliases used to name them or their contents.
+inline bool is_same_type(
+        const DynamicType& type,
+        const DynamicType& other)
+{
+    if (type.kind() == TypeKind::ALIAS_TYPE)
+    {
+        return is_same_type(static_cast<const AliasType&>(type).rget(), other);
+    }
+    if (other.kind() == TypeKind::ALIAS_TYPE)
+    {
+        return is_same_type(type, static_cast<const AliasType&>(other).rget());
+    }
+    if (type.kind() != other.kind())
+    {
+        return false;
+    }
+    if (type.name() == other.name())
+    {
+        return true;
+    }
+    if (type.kind() == TypeKind::PAIR_TYPE)
+    {
+        const PairType& pair = static_cast<const PairType&>(type);
+        const PairType& other_pair = static_cast<const PairType&>(other);
+        return is_same_type(pair.first(), other_pair.first()) && is_same_type(pair.second(), other_pair.second());
+    }
+    return type.is_collection_type()
+           && type.is_compatible(other) == TypeConsistency::EQUALS
+           && is_same_type(
+                static_cast<const CollectionType&>(type).content_type(),
+                static_cast<const CollectionType&>(other).content_type());
+}
+
 } // namespace xtypes
 } // namespace eprosima
 
-- 
2.43.0


From 50e60218360a157bdca3e4f07eb555e803818455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:09 +0000
Subject: [PATCH 43/79] fix: compare arrays whose content types are named by
 different aliases

---
 include/xtypes/DynamicData.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index e73b415..a0bdd00 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -85,8 +85,8 @@ public:
         if (type_->kind() == TypeKind::ARRAY_TYPE)
         {
             // If the data is Array, a fast way to discard equality is that the content or size of the array
-            // is different. We can check both without casting the type by comparing the type (array) name.
-            return type_->name() == other.type().name() && type_->compare_instance(instance_, other.instance_);
+            // is different.
+            return is_same_type(*type_, other.type()) && type_->compare_instance(instance_, other.instance_);
         }
         return type_->compare_instance(instance_, other.instance_);
     }
-- 
2.43.0


From 9361d1ab5ddcefb93be9d2ca40a1d6ef6b06ad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:57 +0000
Subject: [PATCH 44/79] fix: hash arrays of an alias as arrays of the aliased
 type

---
 include/xtypes/AliasType.hpp   | 5 +++++
 include/xtypes/DynamicType.hpp | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/AliasType.hpp b/include/xtypes/AliasType.hpp
index 1aade1f..68b5fe4 100644
--- a/include/xtypes/AliasType.hpp
+++ b/include/xtypes/AliasType.hpp
@@ -60,6 +60,11 @@ public:
         return aliased_->memory_size();
     }
 
+    virtual bool has_unique_representation() const override
+    {
+        return aliased_->has_unique_representation();
+    }
+
     virtual void construct_instance(
             uint8_t* instance) const override
     {
diff --git a/include/xtypes/DynamicType.hpp b/include/xtypes/DynamicType.hpp
index 3202eae..4e3165e 100644
--- a/include/xtypes/DynamicType.hpp
+++ b/include/xtypes/DynamicType.hpp
@@ -88,7 +88,7 @@ public:
 
     /// \brief check if equal values of this type are always represented by the same bytes.
     /// That isn't true for floating point types (both zeros are equal, they can have padding).
-    bool has_unique_representation() const
+    virtual bool has_unique_representation() const
     {
         return is_primitive_type()
                && kind_ != TypeKind::FLOAT_32_TYPE
-- 
2.43.0


From 5845d1c247c151c2b3037af9a8786f9e66987c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:05 +0000
Subject: [PATCH 45/79] fix: a floating value isn't read from or stored in an
 enumeration

---
 include/xtypes/DynamicData.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index a0bdd00..cdc1226 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -140,7 +140,7 @@ public:
 
         if (type_->is_enumerated_type())
         {
-            xtypes_assert(type_->memory_size() == sizeof(T),
+            xtypes_assert(type_->memory_size() == sizeof(T) && !std::is_floating_point<T>::value,
                     "Incompatible types: '" << type_->name() << "' and '"
                                             << PrimitiveTypeKindTrait<T>::name << "'.");
         }
@@ -1068,7 +1068,7 @@ public:
 
         if (type_->is_enumerated_type())
         {
-            xtypes_assert(type_->memory_size() == sizeof(T),
+            xtypes_assert(type_->memory_size() == sizeof(T) && !std::is_floating_point<T>::value,
                     "Incompatible types: '" << type_->name() << "' and '"
                                             << PrimitiveTypeKindTrait<T>::name << "'.");
             [[maybe_unused]] const EnumeratedType<T>& enum_type = static_cast<const EnumeratedType<T>&>(*type_);
-- 
2.43.0


From 5b1dd67318241e7339bea783516879a3b5e1c840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:49 +0000
Subject: [PATCH 46/79] fix: the labels of unions with negative, big unsigned,
 aliased enumeration or special character values were generated wrong

---
 include/xtypes/idl/generator.hpp | 76 +++++++++++++++++++++++++-------
 1 file changed, 59 insertions(+), 17 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 2b39ad4..cd96627 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -215,18 +215,64 @@ inline std::string type_name(
     }
 }
 
-inline std::string label_value(
-        size_t value,
-        const DynamicType& type)
+/// \brief Writes a character as it has to appear within a character or string literal.
+inline std::string literal_char(
+        char32_t code)
 {
-    TypeKind kind = type.kind();
+    switch (code)
+    {
+        case U'\n': return "\\n";
+        case U'\t': return "\\t";
+        case U'\r': return "\\r";
+        case U'\\': return "\\\\";
+        case U'\'': return "\\'";
+        case U'"': return "\\\"";
+        default: break;
+    }
+
+    if (code < 0x20 || code == 0x7F)
+    {
+        static const char* digits = "0123456789ABCDEF";
+        return std::string("\\x") + digits[code >> 4] + digits[code & 0xF];
+    }
+
+    std::u16string utf16;
+    if (code < 0x10000)
+    {
+        utf16.push_back(static_cast<char16_t>(code));
+    }
+    else
+    {
+        utf16.push_back(static_cast<char16_t>(0xD800 + ((code - 0x10000) >> 10)));
+        utf16.push_back(static_cast<char16_t>(0xDC00 + ((code - 0x10000) & 0x3FF)));
+    }
+    auto utf8 = code_conversion_tool<XTYPES_CHAR>(utf16);
+    return std::string(utf8.begin(), utf8.end());
+}
 
-    if (kind == TypeKind::ALIAS_TYPE)
+/// \brief Writes a byte as it has to appear within a (narrow) character literal.
+inline std::string literal_byte(
+        char value)
+{
+    unsigned char code = static_cast<unsigned char>(value);
+    if (code < 0x80)
     {
-        kind = static_cast<const AliasType&>(type).rget().kind();
+        return literal_char(code);
     }
 
-    switch (kind)
+    static const char* digits = "0123456789ABCDEF";
+    return std::string("\\x") + digits[code >> 4] + digits[code & 0xF];
+}
+
+inline std::string label_value(
+        int64_t value,
+        const DynamicType& discriminator)
+{
+    const DynamicType& type = discriminator.kind() == TypeKind::ALIAS_TYPE
+        ? static_cast<const AliasType&>(discriminator).rget()
+        : discriminator;
+
+    switch (type.kind())
     {
         case TypeKind::BOOLEAN_TYPE:
         {
@@ -234,19 +280,12 @@ inline std::string label_value(
         }
         case TypeKind::CHAR_8_TYPE:
         {
-            char temp = static_cast<char>(value);
-            std::stringstream ss;
-            ss << "'" << temp << "'";
-            return ss.str();
+            return "'" + literal_byte(static_cast<char>(value)) + "'";
         }
         case TypeKind::CHAR_16_TYPE:
         case TypeKind::WIDE_CHAR_TYPE:
         {
-            char16_t temp = static_cast<char16_t>(value);
-            std::stringstream ss;
-            auto aux = code_conversion_tool<XTYPES_CHAR>(std::u16string(1, temp));
-            ss << "L'" << std::string(aux.begin(), aux.end()) << "'";
-            return ss.str();
+            return "L'" + literal_char(static_cast<char32_t>(value)) + "'";
         }
         case TypeKind::INT_8_TYPE:
         case TypeKind::UINT_8_TYPE:
@@ -255,10 +294,13 @@ inline std::string label_value(
         case TypeKind::INT_32_TYPE:
         case TypeKind::UINT_32_TYPE:
         case TypeKind::INT_64_TYPE:
-        case TypeKind::UINT_64_TYPE:
         {
             return std::to_string(value);
         }
+        case TypeKind::UINT_64_TYPE:
+        {
+            return std::to_string(static_cast<uint64_t>(value));
+        }
         case TypeKind::ENUMERATION_TYPE:
         {
             return static_cast<const EnumerationType<uint32_t>&>(type).enumerator(static_cast<uint32_t>(value));
-- 
2.43.0


From 4e75ddcb6f1baedbccc87fa830a1c74ba63604d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:49 +0000
Subject: [PATCH 47/79] fix: the generated IDL of an enumeration lost the
 values of its enumerators

---
 include/xtypes/idl/generator.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index cd96627..aaf781c 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -455,7 +455,12 @@ inline std::string enumeration32(
     for (size_t i = 0; i < ids.size(); ++i)
     {
         const auto& value = ids[i];
-        ss << std::string((tabs + 1) * 4, ' ') << value.first;
+        ss << std::string((tabs + 1) * 4, ' ');
+        if (value.second != (i == 0 ? 0 : ids[i - 1].second + 1)) // Not the value it has by default
+        {
+            ss << "@value(" << value.second << ") ";
+        }
+        ss << value.first;
         if (i + 1 < ids.size())
         {
             ss << ",";
-- 
2.43.0


From 83928f78cc3d70ace89a03b595e59a812b688df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:15 +0000
Subject: [PATCH 48/79] fix: constants of boolean, character, wide text and
 floating types were generated with another value or refused

---
 include/xtypes/idl/generator.hpp | 138 ++++++++++++++++++++++++-------
 1 file changed, 106 insertions(+), 32 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index aaf781c..5c416a2 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -28,6 +28,8 @@
 #include <xtypes/idl/generator_deptree.hpp>
 #include <xtypes/idl/Module.hpp>
 
+#include <iomanip>
+#include <limits>
 #include <sstream>
 
 #define dependencynode_assert(NODEPTR, KIND) \
@@ -471,46 +473,118 @@ inline std::string enumeration32(
     return ss.str();
 }
 
-inline std::string get_const_value(
-        ReadableDynamicDataRef data)
+/// \brief Writes a floating point value with all the digits it needs to be read back.
+template<typename T>
+inline std::string float_literal(
+        T value)
 {
-    std::stringstream ss;
-    std::string prefix = "";
-    std::string suffix = "";
-
-    if (data.type().kind() == TypeKind::STRING_TYPE)
-    {
-        prefix = "\"";
-        suffix = "\"";
-    }
-    else if (data.type().kind() == TypeKind::WSTRING_TYPE)
-    {
-        prefix = "L\"";
-        suffix = "\"";
-    }
-    else if (data.type().kind() == TypeKind::STRING16_TYPE)
+    std::string text;
+    for (int precision = std::numeric_limits<T>::digits10;
+            precision <= std::numeric_limits<T>::max_digits10; ++precision)
     {
-        prefix = "L\"";
-        suffix = "\"";
-    }
-    else if (data.type().kind() == TypeKind::CHAR_8_TYPE)
-    {
-        prefix = "'";
-        suffix = "'";
+        std::stringstream ss;
+        ss << std::setprecision(precision) << value;
+        text = ss.str();
+        T read = T();
+        if ((ss >> read) && read == value)
+        {
+            break;
+        }
     }
-    else if (data.type().kind() == TypeKind::CHAR_16_TYPE)
+
+    if (text.find_first_not_of("-0123456789") == std::string::npos)
     {
-        prefix = "L'";
-        suffix = "'";
+        text += ".0"; // Otherwise it would be an integer literal
     }
-    else if (data.type().kind() == TypeKind::WIDE_CHAR_TYPE)
+    return text;
+}
+
+inline std::string get_const_value(
+        ReadableDynamicDataRef data)
+{
+    std::stringstream ss;
+
+    switch (data.type().kind())
     {
-        prefix = "L'";
-        suffix = "'";
+        case TypeKind::BOOLEAN_TYPE:
+        {
+            ss << (data.value<bool>() ? "TRUE" : "FALSE");
+            break;
+        }
+        case TypeKind::CHAR_8_TYPE:
+        {
+            ss << "'" << literal_byte(data.value<char>()) << "'";
+            break;
+        }
+        case TypeKind::CHAR_16_TYPE:
+        {
+            ss << "L'" << literal_char(data.value<char16_t>()) << "'";
+            break;
+        }
+        case TypeKind::WIDE_CHAR_TYPE:
+        {
+            ss << "L'" << literal_char(static_cast<char32_t>(data.value<wchar_t>())) << "'";
+            break;
+        }
+        case TypeKind::STRING_TYPE:
+        {
+            ss << '"';
+            for (char c : data.value<std::string>())
+            {
+                // The bytes of an encoded character go together
+                ss << (static_cast<unsigned char>(c) < 0x80 ? literal_byte(c) : std::string(1, c));
+            }
+            ss << '"';
+            break;
+        }
+        case TypeKind::WSTRING_TYPE:
+        {
+            ss << "L\"";
+            for (wchar_t c : data.value<std::wstring>())
+            {
+                ss << literal_char(static_cast<char32_t>(c));
+            }
+            ss << '"';
+            break;
+        }
+        case TypeKind::STRING16_TYPE:
+        {
+            const std::u16string& text = data.value<std::u16string>();
+            ss << "L\"";
+            for (size_t i = 0; i < text.size(); ++i)
+            {
+                char32_t code = text[i];
+                if (code >= 0xD800 && code < 0xDC00 && i + 1 < text.size())
+                {
+                    code = 0x10000 + ((code - 0xD800) << 10) + (text[++i] - 0xDC00);
+                }
+                ss << literal_char(code);
+            }
+            ss << '"';
+            break;
+        }
+        case TypeKind::FLOAT_32_TYPE:
+        {
+            ss << float_literal(data.value<float>());
+            break;
+        }
+        case TypeKind::FLOAT_64_TYPE:
+        {
+            ss << float_literal(data.value<double>());
+            break;
+        }
+        case TypeKind::FLOAT_128_TYPE:
+        {
+            ss << float_literal(data.value<long double>());
+            break;
+        }
+        default:
+        {
+            ss << data.cast<std::string>();
+            break;
+        }
     }
 
-    ss << prefix << data.cast<std::string>() << suffix;
-
     return ss.str();
 }
 
-- 
2.43.0


From 303d9f2c604019e22196edc710ee3e1081ca18b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:30 +0000
Subject: [PATCH 49/79] fix: generated IDL used types of another kind than the
 user's, and types of its own scope, before their declaration

---
 include/xtypes/idl/generator_deptree.hpp | 26 +++++++++---------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index 0e6f84d..966aad1 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -348,9 +348,8 @@ public:
             const DependencyNode& other) const
     {
         return (kind_ == other.kind_ &&
-                node_.first == node_.first &&
-                node_.second.get() == other.node_.second.get() &&
-                node_.second.parent().scope() == node_.second.parent().scope());
+                node_.first == other.node_.first &&
+                &node_.second.parent() == &other.node_.second.parent());
     }
 
     /// \brief Not equal comparison operator overload between two DependencyNode objects.
@@ -740,7 +739,7 @@ public:
 
             for (auto& node : node_set_)
             {
-                if (node.name() == unscoped_name && scope_match)
+                if (node.name() == unscoped_name && scope_match && node.kind() != ModuleElementKind::xCONST)
                 {
                     if (from_search != nullptr)
                     {
@@ -781,18 +780,10 @@ public:
     /// \brief Set a dependency between two DependencyNodes.
     /// \param[in] dependent The DependencyNode objects which depends on master.
     /// \param[in] master Name of the DependencyNode to be found in the tree.
-    /// \param[in] dep_list A ModuleElement map to search within this DependencyModule.
-    /// before triggering search in the whole tree.
     void set_dependency(
             DependencyNode& dependent,
-            const std::string& master,
-            const ModuleElementKind& kind)
+            const std::string& master)
     {
-        if (dependent.name() == master) // Cannot add dependency to itself
-        {
-            return;
-        }
-
         bool scoped_this = true;
         std::string unscoped_master, master_scope;
         if (master.find("::") != std::string::npos)
@@ -816,13 +807,16 @@ public:
         {
             for (auto& node : node_set_)
             {
-                if (node.kind() != kind)
+                if (node.kind() == ModuleElementKind::xCONST) // The dependency is always on a type
                 {
                     continue;
                 }
                 else if (node.name() == unscoped_master)
                 {
-                    dependent.set_ancestor(node);
+                    if (node != dependent) // Cannot add dependency to itself
+                    {
+                        dependent.set_ancestor(node);
+                    }
                     break;
                 }
             }
@@ -877,7 +871,7 @@ public:
     {
         if (opts_for_dependency_setting(type))
         {
-            set_dependency(node, master, node.kind());
+            set_dependency(node, master);
         }
     }
 
-- 
2.43.0


From cfd836d6c3c3b67c4d72e5b692ad5fba506e9dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:27 +0000
Subject: [PATCH 50/79] fix: an alias of a collection or array was generated
 before the types it holds

---
 include/xtypes/idl/generator_deptree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index 966aad1..9202260 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -884,7 +884,10 @@ public:
             case ModuleElementKind::xALIAS:
             {
                 const AliasType& alias = static_cast<const AliasType&>(node.type());
-                set_dynamic_type_dependency(node, *alias, alias->name());
+                alias.get().for_each([&](const DynamicType::TypeNode& tnode)
+                {
+                    set_dynamic_type_dependency(node, tnode.type(), tnode.type().name());
+                });
                 break;
             }
 
-- 
2.43.0


From 47b65bc4dd21e8524161daf06733b7b3de802176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:09 +0000
Subject: [PATCH 51/79] fix: indirect dependencies were generated after their
 use, circular ones between modules recursed endlessly

---
 include/xtypes/idl/generator_deptree.hpp | 161 +++++++++++------------
 1 file changed, 75 insertions(+), 86 deletions(-)

diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index 9202260..cfac8f7 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -111,6 +111,7 @@ public:
         , node_(node)
         , kind_(std::move(kind))
         , iterated_(false)
+        , in_progress_(false)
     {}
 
     /// \brief Check if this DependencyNode has been iterated.
@@ -121,6 +122,15 @@ public:
         return iterated_;
     }
 
+    /// \brief Mark this DependencyNode as being generated.
+    /// It cannot be needed again until it has been iterated.
+    void start()
+    {
+        xtypes_assert(!in_progress_,
+            "Cannot generate an IDL with circular dependencies (" << type().name() << ").");
+        in_progress_ = true;
+    }
+
     /// \brief Gets the DependencyModule which contains this DependencyNode.
     /// \returns A const pointer to the DependencyModule this object comes from.
     const DependencyModule* from() const
@@ -367,6 +377,7 @@ private:
     const ModuleElement& node_;
     ModuleElementKind kind_;
     bool iterated_;
+    bool in_progress_;
     NodeRefSet ancestors_;
     ModuleRefSet parent_modules_;
     ModuleRefSet child_modules_;
@@ -392,6 +403,7 @@ public:
             const Module& module,
             DependencyModule* outer)
         : iterated_(false)
+        , in_progress_(false)
         , module_(module)
         , d_root_(d_root)
         , d_outer_(outer)
@@ -412,6 +424,15 @@ public:
         iterated_ = iterated;
     }
 
+    /// \brief Mark this DependencyModule as being generated.
+    /// It cannot be needed again until it has been iterated, as it is generated in one piece.
+    void start()
+    {
+        xtypes_assert(!in_progress_,
+            "Cannot generate an IDL with circular dependencies between modules (" << module_.scope() << ").");
+        in_progress_ = true;
+    }
+
     /// \brief Retrieve Module object referred by this DependencyModule.
     /// \returns A const reference to the Module.
     const Module& module() const
@@ -996,77 +1017,10 @@ public:
         return ss.str();
     }
 
-    /// \brief Helper method to generate an IDL sentence from a DependencyModule
-    /// reference, given the corresponding DependencyNode whose IDL sentence wants to be
-    /// generated. The method first checks if the node belongs to this DependencyModule.
-    /// \param[in] node DependencyNode whose IDL sentence will be generated.
-    /// \param[in] tabs Padding relative to module's scope.
-    /// \returns An string with the generated IDL sentence, if node belongs to this module.
-    std::string generate_idl_sentence(
-            DependencyNode& node,
-            unsigned int tabs,
-            std::map<std::string, std::string>* module_idl = nullptr) const
-    {
-        if (std::find(node_set_.begin(), node_set_.end(), node) != node_set_.end())
-        {
-            return node.generate_idl_sentence(tabs, module_idl);
-        }
-        else
-        {
-            return std::string();
-        }
-    }
-
-    /// \brief Generate IDL sentence for the DependencyNode contents of this module.
-    /// \param[in] tabs Padding relative to module's scope.
-    /// \param[in] is_child If set, generate IDL sentence only for DependencyNode that has as child
-    /// the "is_child" DependencyModule reference.
-    /// \returns An string with the generated IDL.
-    std::string generate_idl_module(
-            unsigned int tabs = 0,
-            std::map<std::string, std::string>* struct_idl = nullptr)
-    {
-        std::stringstream ss;
-
-        for (auto& node : node_set_)
-        {
-            if (node.has_ancestors())
-            {
-                for (const auto& ancestor : node.ancestors())
-                {
-                    std::stringstream ss_ancestor;
-                    ss_ancestor << ancestor.get().generate_idl_sentence(tabs, struct_idl);
-
-                    if (ss_ancestor.rdbuf()->in_avail())
-                    {
-                        ss << ss_ancestor.str() << std::endl;
-                    }
-                }
-            }
-
-            std::stringstream ss_node;
-            ss_node << node.generate_idl_sentence(tabs, struct_idl);
-
-            if (ss_node.rdbuf()->in_avail() &&
-                (!all_nodes_iterated() || (!d_inner_.empty() && !all_inner_iterated())))
-            {
-                ss_node << std::endl;
-            }
-
-            ss << ss_node.str();
-
-            if (struct_idl != nullptr)
-            {
-                (*struct_idl)[node.type().name()] = ss_node.str();
-            }
-        }
-
-        return ss.str();
-    }
-
 private:
 
     bool iterated_;
+    bool in_progress_;
     const Module& module_;
     const std::shared_ptr<DependencyModule>& d_root_;
     DependencyModule* d_outer_;
@@ -1120,6 +1074,55 @@ public:
         }
     }
 
+    /// \brief Generate the IDL sentence of a DependencyNode, preceded by everything it needs: modules which
+    /// are inner to the one it belongs to, and other nodes of the latter, with their own dependencies.
+    /// \param[in] dep_mod The DependencyModule the node belongs to.
+    /// \param[in] node The DependencyNode whose IDL wants to be generated, unless it already was.
+    /// \param[in] tabs Padding relative to module's scope.
+    /// \returns A string representing IDL definition for the given node and its pending dependencies.
+    std::string generate_idl_node(
+            DependencyModule* dep_mod,
+            DependencyNode& node,
+            unsigned int tabs,
+            std::map<std::string, std::string>* module_idl) const
+    {
+        if (node.iterated())
+        {
+            return std::string();
+        }
+
+        node.start();
+        std::stringstream ss;
+
+        for (const auto& parent : node.parent_modules())
+        {
+            DependencyModule* p_parent = parent.lock().get();
+            if (!p_parent->iterated())
+            {
+                ss << generate_idl(p_parent, tabs, module_idl) << std::endl;
+            }
+        }
+
+        for (const auto& ancestor : node.ancestors())
+        {
+            ss << generate_idl_node(dep_mod, ancestor.get(), tabs, module_idl);
+        }
+
+        std::string sentence = node.generate_idl_sentence(tabs, module_idl);
+        if (!sentence.empty() && (!dep_mod->all_nodes_iterated() || !dep_mod->all_inner_iterated()))
+        {
+            sentence += '\n';
+        }
+        ss << sentence;
+
+        if (module_idl != nullptr)
+        {
+            (*module_idl)[node.type().name()] = sentence;
+        }
+
+        return ss.str();
+    }
+
     /// \brief Generate IDL sentence for a given DependencyModule.
     /// \param[in] dep_mod the DependencyModule whose IDL wants to be generated.
     /// \param[in] tabs Padding relative to module's scope.
@@ -1134,6 +1137,8 @@ public:
             return std::string();
         }
 
+        dep_mod->start();
+
         bool root = dep_mod->module().name().empty();
         std::stringstream ss;
 
@@ -1157,12 +1162,7 @@ public:
             {
                 if (onode.has_child_module(dep_mod))
                 {
-                    ss << outer->generate_idl_sentence(onode, tabs, module_idl);
-
-                    if (!outer->all_nodes_iterated())
-                    {
-                        ss << std::endl;
-                    }
+                    ss << generate_idl_node(outer, onode, tabs, module_idl);
                 }
             }
         }
@@ -1191,20 +1191,9 @@ public:
 
         for (auto& node : dep_mod->node_set())
         {
-            if (node.has_parent_modules())
-            {
-                for (const auto& parent : node.parent_modules())
-                {
-                    if (!parent.lock().get()->iterated())
-                    {
-                        ss << generate_idl(parent.lock().get(), root ? 0 : tabs + 1, module_idl) << std::endl;
-                    }
-                }
-            }
+            ss << generate_idl_node(dep_mod, node, root ? 0 : tabs + 1, module_idl);
         }
 
-        ss << dep_mod->generate_idl_module(root ? 0 : tabs + 1, module_idl);
-
         // Iterate over inner DependencyModule list
         for (const auto& inner : dep_mod->inner())
         {
-- 
2.43.0


From 1b5b11b344259a27fa6ae0038b3ca4af63fe8812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:03 +0000
Subject: [PATCH 52/79] fix: generated IDL named types and parents in a way
 that led to another scope

---
 include/xtypes/idl/generator.hpp         | 31 +++++++++---------------
 include/xtypes/idl/generator_deptree.hpp | 10 ++++++++
 2 files changed, 22 insertions(+), 19 deletions(-)

diff --git a/include/xtypes/idl/generator.hpp b/include/xtypes/idl/generator.hpp
index 5c416a2..a7398a3 100644
--- a/include/xtypes/idl/generator.hpp
+++ b/include/xtypes/idl/generator.hpp
@@ -188,30 +188,23 @@ inline std::string type_name(
         std::stringstream ss;
         ss << generator::type_scope(node, type);
 
-        if (type.kind() == TypeKind::ALIAS_TYPE)
+        const std::string& type_name = type.name();
+        size_t scope_end = type_name.rfind("::");
+        if (scope_end == std::string::npos)
         {
-            ss << static_cast<const AliasType&>(type).name();
+            ss << type_name;
+        }
+        else if (node && (type_name.substr(0, scope_end) == node->module().scope()) && !scoped)
+        {
+            ss << type_name.substr(scope_end + 2); // Redundant scope: get rid of it
         }
         else
         {
-            const std::string& type_name = type.name();
-            if (type_name.find("::") != std::string::npos)
-            {
-                size_t scope_end = type_name.rfind("::");
-                std::string scope = type_name.substr(0, scope_end);
-                if (node && (scope == node->module().scope()) && !scoped) // Redundant scope: get rid of it
-                {
-                    ss << type_name.substr(scope_end + 2);
-                }
-                else
-                {
-                    ss << type_name;
-                }
-            }
-            else
+            if (node && type_name.find("::") != 0 && !node->from()->resolves(type_name))
             {
-                ss << type_name;
+                ss << "::"; // Another scope is found first
             }
+            ss << type_name;
         }
         return ss.str();
     }
@@ -339,7 +332,7 @@ inline std::string structure(
     ss << std::string(tabs * 4, ' ') << "struct " << name;
     if (type.has_parent())
     {
-        ss << " : " << generator::type_scope(struct_node, type.parent()) << type.parent().name();
+        ss << " : " << generator::type_name(struct_node, type.parent(), true);
     }
     ss << std::endl << std::string(tabs * 4, ' ') << "{" << std::endl;
 
diff --git a/include/xtypes/idl/generator_deptree.hpp b/include/xtypes/idl/generator_deptree.hpp
index cfac8f7..8806dc3 100644
--- a/include/xtypes/idl/generator_deptree.hpp
+++ b/include/xtypes/idl/generator_deptree.hpp
@@ -980,6 +980,16 @@ public:
         }
     }
 
+    /// \brief Checks if a scoped name leads, from this module, to the symbol that has it as absolute name.
+    /// \param[in] scoped_name The name, without leading "::".
+    /// \returns Boolean with the requested information.
+    bool resolves(
+            const std::string& scoped_name) const
+    {
+        auto found = module_.resolve_scope(scoped_name);
+        return found.first != nullptr && found.first->scope() + "::" + found.second == scoped_name;
+    }
+
     /// \brief Resolve relative scope between this module and another one, provided as parameter.
     /// \param[in] other The DependencyModule whose scope wants to be resolved against this one.
     /// \returns Relative scope between the two modules.
-- 
2.43.0


From 0bc8da72fcc855e71ef36c0972a3c125aeb13b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:08 +0000
Subject: [PATCH 53/79] fix: a union whose members use every low label has no
 member selected at first

---
 include/xtypes/UnionType.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index ccb3fad..fcdbb22 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -154,6 +154,12 @@ public:
             --invalid_value_;
         }
 
+        // Every lower value is a label: the reserved value is none in a union without a default member.
+        if (labels_.count(invalid_value_) != 0)
+        {
+            invalid_value_ = default_value_;
+        }
+
         return *this;
     }
 
-- 
2.43.0


From 1a7d55aa0b3e8e800c3684a23887b3637bc2e15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:08 +0000
Subject: [PATCH 54/79] fix: sequences and maps of more than 4 GiB and sizes
 beyond 32 bits do not overrun their memory

---
 include/xtypes/MapInstance.hpp      |  7 ++++++-
 include/xtypes/SequenceInstance.hpp | 20 ++++++++++++++++----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 5152ffd..2dc02ee 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -21,6 +21,7 @@
 
 #include <cstdint>
 #include <cstring>
+#include <new>
 
 namespace eprosima {
 namespace xtypes {
@@ -195,7 +196,7 @@ private:
     friend class MapType;
 
     std::shared_ptr<const PairType> content_;
-    uint32_t block_size_ = 0;
+    size_t block_size_ = 0;
     uint32_t capacity_ = 0;
     uint8_t* memory_ = nullptr;
     uint32_t size_ = 0;
@@ -242,6 +243,10 @@ private:
             {
                 free_memory();
             }
+            if (block_size_ > 0 && size > SIZE_MAX / block_size_)
+            {
+                throw std::bad_alloc();
+            }
             memory = size > 0 ? new uint8_t[size * block_size_] : nullptr;
             if (memory != nullptr)
             {
diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index 26d6ade..daeb93b 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -21,6 +21,7 @@
 
 #include <cstdint>
 #include <cstring>
+#include <new>
 
 namespace eprosima {
 namespace xtypes {
@@ -145,16 +146,19 @@ public:
     {
         if (memory_ == nullptr || size_ == capacity_)
         {
+            xtypes_assert(size_ < UINT32_MAX,
+                    "A sequence cannot have more than " << size_ << " elements.");
+
             if (memory_ != nullptr && instance >= memory_ && instance < memory_ + size_ * block_size_)
             {
                 // The instance belongs to this sequence: follow it to the new memory.
                 size_t offset = instance - memory_;
-                realloc(capacity_ * 2, bounds);
+                realloc(size_t(capacity_) * 2, bounds);
                 instance = memory_ + offset;
             }
             else
             {
-                realloc((capacity_ > 0) ? capacity_ * 2 : 1, bounds);
+                realloc((capacity_ > 0) ? size_t(capacity_) * 2 : 1, bounds);
             }
         }
 
@@ -178,6 +182,9 @@ public:
             return;
         }
 
+        xtypes_assert(new_size <= UINT32_MAX,
+                "A sequence cannot have " << new_size << " elements.");
+
         realloc(new_size, bounds);
 
         for (size_t i = size_; i < new_size; i++)
@@ -223,7 +230,7 @@ private:
     friend class SequenceType;
 
     std::shared_ptr<const DynamicType> content_;
-    uint32_t block_size_ = 0;
+    size_t block_size_ = 0;
     uint32_t capacity_ = 0;
     uint8_t* memory_ = nullptr;
     uint32_t size_ = 0;
@@ -232,7 +239,8 @@ private:
             size_t desired_capacity,
             uint32_t bounds)
     {
-        size_t new_capacity = bounds == 0 ? desired_capacity : std::min(desired_capacity, size_t(bounds));
+        const size_t max_size = UINT32_MAX; // The sizes are 32 bits wide
+        size_t new_capacity = std::min(desired_capacity, bounds == 0 ? max_size : size_t(bounds));
         uint8_t* new_memory = nullptr;
         init_memory(new_memory, new_capacity);
 
@@ -253,6 +261,10 @@ private:
             {
                 free_memory();
             }
+            if (block_size_ > 0 && size > SIZE_MAX / block_size_)
+            {
+                throw std::bad_alloc();
+            }
             memory = size > 0 ? new uint8_t[size * block_size_] : nullptr;
             if (memory != nullptr)
             {
-- 
2.43.0


From 0cf8b1fd1e86c7a5954bee7990fd5311dc64b81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:08 +0000
Subject: [PATCH 55/79] fix: arrays and structures whose size overflows are
 refused

---
 include/xtypes/ArrayType.hpp  | 10 ++++++++++
 include/xtypes/StructType.hpp |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 3adbd16..79ba8d0 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -46,6 +46,7 @@ public:
             DynamicType::Ptr(content))
         , dimension_(dimension)
     {
+        check_memory_size();
     }
 
     /// \brief Construct an ArrayType.
@@ -61,6 +62,7 @@ public:
             DynamicType::Ptr(std::move(content)))
         , dimension_(dimension)
     {
+        check_memory_size();
     }
 
     ArrayType(
@@ -89,6 +91,7 @@ public:
         {
             content_ = DynamicType::Ptr(content);
         }
+        check_memory_size();
         name_ = "array_" + std::to_string(dimension_) + "_" + content_->name();
     }
 
@@ -346,6 +349,13 @@ protected:
 
 private:
 
+    void check_memory_size() const
+    {
+        size_t block_size = content_type().memory_size();
+        xtypes_assert(block_size == 0 || dimension_ <= size_t(PTRDIFF_MAX) / block_size,
+                "An array of " << dimension_ << " elements of type '" << content_type().name() << "' is too large.");
+    }
+
     uint32_t dimension_;
 };
 
diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index e257267..4f72d60 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -55,6 +55,8 @@ public:
     StructType& add_member(
             const Member& member)
     {
+        xtypes_assert(member.type().memory_size() <= size_t(PTRDIFF_MAX) - memory_size_,
+                "Structure '" << name() << "' is too large to have the member '" << member.name() << "'.");
         Member& inner = insert_member(member);
         inner.offset_ = memory_size_;
         memory_size_ += inner.type().memory_size();
-- 
2.43.0


From f631991b019a307388744e06cbde7b82f2d796e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:34 +0000
Subject: [PATCH 56/79] fix: don't leak the instance when a DynamicData cannot
 be constructed

---
 include/xtypes/DynamicData.hpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index cdc1226..bdbdd82 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1400,20 +1400,22 @@ public:
     /// \param[in] type DynamicType from which the DynamicData is created.
     DynamicData(
             const DynamicType& type)
-        : WritableDynamicDataRef(type, new uint8_t[type.memory_size()])
+        : WritableDynamicDataRef(type, nullptr)
     {
-        memset(instance_, 0, type.memory_size());
-        type_->construct_instance(instance_);
+        std::unique_ptr<uint8_t[]> content(new uint8_t[type.memory_size()]());
+        type_->construct_instance(content.get());
+        instance_ = content.release();
         initialize_ = true;
     }
 
     /// \brief Copy constructor from a ReadableDynamicDataRef
     DynamicData(
             const ReadableDynamicDataRef& other)
-        : WritableDynamicDataRef(other.type(), new uint8_t[other.type().memory_size()])
+        : WritableDynamicDataRef(other.type(), nullptr)
     {
-        memset(instance_, 0, other.type().memory_size());
-        type_->copy_instance(instance_, p_instance(other));
+        std::unique_ptr<uint8_t[]> content(new uint8_t[other.type().memory_size()]());
+        type_->copy_instance(content.get(), p_instance(other));
+        instance_ = content.release();
         initialize_ = true;
     }
 
@@ -1446,10 +1448,11 @@ public:
     /// \brief Copy constructor
     DynamicData(
             const DynamicData& other)
-        : WritableDynamicDataRef(*other.type_, new uint8_t[other.type_->memory_size()])
+        : WritableDynamicDataRef(*other.type_, nullptr)
     {
-        memset(instance_, 0, other.type().memory_size());
-        type_->copy_instance(instance_, p_instance(other));
+        std::unique_ptr<uint8_t[]> content(new uint8_t[other.type_->memory_size()]());
+        type_->copy_instance(content.get(), p_instance(other));
+        instance_ = content.release();
         initialize_ = true;
     }
 
-- 
2.43.0


From 26c307cbf52c5e4c0b5ac2caf4fb7a3747086114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:34 +0000
Subject: [PATCH 57/79] fix: destroy the parts already built when the instance
 of an array, structure or pair cannot be completed

---
 include/xtypes/ArrayType.hpp  | 56 ++++++++++++++++++++++++++++-------
 include/xtypes/PairType.hpp   | 20 +++++++++++--
 include/xtypes/StructType.hpp | 44 +++++++++++++++++++++------
 3 files changed, 99 insertions(+), 21 deletions(-)

diff --git a/include/xtypes/ArrayType.hpp b/include/xtypes/ArrayType.hpp
index 79ba8d0..edbf7ab 100644
--- a/include/xtypes/ArrayType.hpp
+++ b/include/xtypes/ArrayType.hpp
@@ -111,9 +111,18 @@ public:
             uint8_t* instance) const override
     {
         size_t block_size = content_type().memory_size();
-        for (uint32_t i = 0; i < dimension_; i++)
+        uint32_t done = 0;
+        try
         {
-            content_type().construct_instance(instance + i * block_size);
+            for (; done < dimension_; done++)
+            {
+                content_type().construct_instance(instance + done * block_size);
+            }
+        }
+        catch (...)
+        {
+            destroy_elements(instance, done);
+            throw;
         }
     }
 
@@ -124,9 +133,18 @@ public:
         size_t block_size = content_type().memory_size();
         if (content_type().is_constructed_type())
         {
-            for (uint32_t i = 0; i < dimension_; i++)
+            uint32_t done = 0;
+            try
             {
-                content_type().copy_instance(target + i * block_size, source + i * block_size);
+                for (; done < dimension_; done++)
+                {
+                    content_type().copy_instance(target + done * block_size, source + done * block_size);
+                }
+            }
+            catch (...)
+            {
+                destroy_elements(target, done);
+                throw;
             }
         }
         else //optimization when the type is primitive
@@ -178,10 +196,7 @@ public:
             }
             catch (...)
             {
-                while (done > 0)
-                {
-                    content_type().destroy_instance(target + --done * block_size);
-                }
+                destroy_elements(target, done);
                 throw;
             }
         }
@@ -190,9 +205,18 @@ public:
             std::memcpy(target, source, min_dimension * block_size);
         }
 
-        for (uint32_t i = min_dimension; i < dimension_; i++) // Elements without correspondence in the source
+        uint32_t done = min_dimension;
+        try
         {
-            content_type().construct_instance(target + i * block_size);
+            for (; done < dimension_; done++) // Elements without correspondence in the source
+            {
+                content_type().construct_instance(target + done * block_size);
+            }
+        }
+        catch (...)
+        {
+            destroy_elements(target, done);
+            throw;
         }
     }
 
@@ -349,6 +373,18 @@ protected:
 
 private:
 
+    /// \brief Destroys the first elements of an instance that couldn't be completed.
+    void destroy_elements(
+            uint8_t* instance,
+            uint32_t count) const
+    {
+        size_t block_size = content_type().memory_size();
+        while (count > 0)
+        {
+            content_type().destroy_instance(instance + --count * block_size);
+        }
+    }
+
     void check_memory_size() const
     {
         size_t block_size = content_type().memory_size();
diff --git a/include/xtypes/PairType.hpp b/include/xtypes/PairType.hpp
index 338607b..8a5c6d5 100644
--- a/include/xtypes/PairType.hpp
+++ b/include/xtypes/PairType.hpp
@@ -92,7 +92,15 @@ public:
             uint8_t* instance) const override
     {
         first_->construct_instance(instance);
-        second_->construct_instance(instance + first_->memory_size());
+        try
+        {
+            second_->construct_instance(instance + first_->memory_size());
+        }
+        catch (...)
+        {
+            first_->destroy_instance(instance);
+            throw;
+        }
     }
 
     void copy_instance(
@@ -100,7 +108,15 @@ public:
             const uint8_t* source) const override
     {
         first_->copy_instance(target, source);
-        second_->copy_instance(target + first_->memory_size(), source + first_->memory_size());
+        try
+        {
+            second_->copy_instance(target + first_->memory_size(), source + first_->memory_size());
+        }
+        catch (...)
+        {
+            first_->destroy_instance(target);
+            throw;
+        }
     }
 
     void copy_instance_from_type(
diff --git a/include/xtypes/StructType.hpp b/include/xtypes/StructType.hpp
index 4f72d60..3f9684c 100644
--- a/include/xtypes/StructType.hpp
+++ b/include/xtypes/StructType.hpp
@@ -96,9 +96,18 @@ public:
     virtual void construct_instance(
             uint8_t* instance) const override
     {
-        for (auto&& member: members())
+        size_t done = 0;
+        try
+        {
+            for (; done < members().size(); done++)
+            {
+                member(done).type().construct_instance(instance + member(done).offset());
+            }
+        }
+        catch (...)
         {
-            member.type().construct_instance(instance + member.offset());
+            destroy_members(instance, done);
+            throw;
         }
     }
 
@@ -106,9 +115,18 @@ public:
             uint8_t* target,
             const uint8_t* source) const override
     {
-        for (auto&& member: members())
+        size_t done = 0;
+        try
         {
-            member.type().copy_instance(target + member.offset(), source + member.offset());
+            for (; done < members().size(); done++)
+            {
+                member(done).type().copy_instance(target + member(done).offset(), source + member(done).offset());
+            }
+        }
+        catch (...)
+        {
+            destroy_members(target, done);
+            throw;
         }
     }
 
@@ -158,11 +176,7 @@ public:
         }
         catch (...)
         {
-            while (done > 0)
-            {
-                const Member& current = member(--done);
-                current.type().destroy_instance(target + current.offset());
-            }
+            destroy_members(target, done);
             throw;
         }
     }
@@ -308,6 +322,18 @@ protected:
 
 private:
 
+    /// \brief Destroys the first members of an instance that couldn't be completed.
+    void destroy_members(
+            uint8_t* instance,
+            size_t count) const
+    {
+        while (count > 0)
+        {
+            const Member& current = member(--count);
+            current.type().destroy_instance(instance + current.offset());
+        }
+    }
+
     size_t memory_size_;
 };
 
-- 
2.43.0


From 5aa96d2f41ec4e3becd2449d184e460d107095bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:34 +0000
Subject: [PATCH 58/79] fix: don't release the current string until there is a
 copy of the new one

---
 include/xtypes/DynamicData.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/DynamicData.hpp b/include/xtypes/DynamicData.hpp
index bdbdd82..a5a7d2c 100644
--- a/include/xtypes/DynamicData.hpp
+++ b/include/xtypes/DynamicData.hpp
@@ -1079,8 +1079,11 @@ public:
         const uint8_t* source = reinterpret_cast<const uint8_t*>(&t);
         if (source != instance_) // The current value can be received by reference
         {
-            type_->destroy_instance(instance_);
-            type_->copy_instance(instance_, source);
+            // The current value isn't released until there is a copy of the new one.
+            alignas(T) uint8_t content[sizeof(T)] = {};
+            type_->copy_instance(content, source);
+            type_->move_instance(instance_, content, true);
+            type_->destroy_instance(content);
         }
     }
 
-- 
2.43.0


From f5cc8fc63f4bdeeadd3abc6c974ee982ba6d94c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:34 +0000
Subject: [PATCH 59/79] fix: destroy the new elements when a sequence cannot be
 completely resized

---
 include/xtypes/SequenceInstance.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/SequenceInstance.hpp b/include/xtypes/SequenceInstance.hpp
index daeb93b..eaf9e50 100644
--- a/include/xtypes/SequenceInstance.hpp
+++ b/include/xtypes/SequenceInstance.hpp
@@ -187,10 +187,22 @@ public:
 
         realloc(new_size, bounds);
 
-        for (size_t i = size_; i < new_size; i++)
+        size_t done = size_;
+        try
         {
-            uint8_t* place = memory_ + i * block_size_;
-            content_->construct_instance(place);
+            for (; done < new_size; done++)
+            {
+                uint8_t* place = memory_ + done * block_size_;
+                content_->construct_instance(place);
+            }
+        }
+        catch (...)
+        {
+            while (done > size_)
+            {
+                content_->destroy_instance(memory_ + --done * block_size_);
+            }
+            throw;
         }
 
         size_ = new_size;
-- 
2.43.0


From 4ad0cb53c05e0f0d02133d8404ef620d724f0648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:34 +0000
Subject: [PATCH 60/79] fix: leave the map as it was when the new pair cannot
 be built

---
 include/xtypes/MapInstance.hpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/xtypes/MapInstance.hpp b/include/xtypes/MapInstance.hpp
index 2dc02ee..f962df1 100644
--- a/include/xtypes/MapInstance.hpp
+++ b/include/xtypes/MapInstance.hpp
@@ -131,8 +131,24 @@ public:
         }
 
         uint8_t* place = create_place(instance);
-        content_->first().copy_instance(place, instance);
-        content_->second().construct_instance(place + content_->first().memory_size());
+        try
+        {
+            content_->first().copy_instance(place, instance);
+            try
+            {
+                content_->second().construct_instance(place + content_->first().memory_size());
+            }
+            catch (...)
+            {
+                content_->first().destroy_instance(place);
+                throw;
+            }
+        }
+        catch (...)
+        {
+            unshift_content(place);
+            throw;
+        }
 
         size_++;
 
@@ -349,6 +365,17 @@ private:
         }
     }
 
+    /// \brief Moves all the pairs after place one position back, filling place. The inverse of shift_content().
+    void unshift_content(
+            uint8_t* place)
+    {
+        for (; place != get_element(size_); place += block_size_)
+        {
+            content_->move_instance(place, place + block_size_, false);
+            content_->destroy_instance(place + block_size_);
+        }
+    }
+
     uint8_t* create_place(
             const uint8_t* instance)
     {
-- 
2.43.0


From 9948b9922ee7708ecfb9c5807fa760267b3bb224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:34 +0000
Subject: [PATCH 61/79] fix: don't release the active member of a union until
 the new one exists

---
 include/xtypes/UnionType.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index fcdbb22..aab4fba 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -26,6 +26,7 @@
 #include <algorithm>
 #include <string>
 #include <map>
+#include <memory>
 #include <vector>
 #include <regex>
 #include <cwchar>
@@ -1110,7 +1111,14 @@ protected:
             {
                 return false;
             }
+
+            // The active member isn't released until the new one exists.
+            std::unique_ptr<uint8_t[]> content(new uint8_t[member->type().memory_size()]());
+            member->type().construct_instance(content.get());
             active_member->type().destroy_instance(instance + active_member->offset());
+            member->type().move_instance(instance + member->offset(), content.get(), false);
+            member->type().destroy_instance(content.get());
+            return true;
         }
 
         member->type().construct_instance(instance + member->offset());
-- 
2.43.0


From 25c14ce3b12bda7a827a1d494b4fa18d7b0cba42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:34 +0000
Subject: [PATCH 62/79] fix: leave the members and labels as they were when a
 new member cannot be added

---
 include/xtypes/AggregationType.hpp | 10 +++++++-
 include/xtypes/UnionType.hpp       | 39 +++++++++++++++++-------------
 2 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/include/xtypes/AggregationType.hpp b/include/xtypes/AggregationType.hpp
index 06b3f10..b9c29f4 100644
--- a/include/xtypes/AggregationType.hpp
+++ b/include/xtypes/AggregationType.hpp
@@ -103,8 +103,16 @@ protected:
     {
         xtypes_assert(!has_member(member.name()),
             "Type '" << name() << "' already have a member named '" << member.name() << "'.");
-        indexes_.emplace(member.name(), members_.size());
         members_.emplace_back(member);
+        try
+        {
+            indexes_.emplace(member.name(), members_.size() - 1);
+        }
+        catch (...)
+        {
+            members_.pop_back();
+            throw;
+        }
         return members_.back();
     }
 
diff --git a/include/xtypes/UnionType.hpp b/include/xtypes/UnionType.hpp
index aab4fba..db62890 100644
--- a/include/xtypes/UnionType.hpp
+++ b/include/xtypes/UnionType.hpp
@@ -111,6 +111,27 @@ public:
                                      << "' to UnionType '" << name() << "'.");
         }
 
+        // Labels of the member: they are added once nothing else can fail.
+        std::map<int64_t, std::string> new_labels;
+        int64_t first_label = default_value_;
+        for (T label : labels)
+        {
+            int64_t l = shrink_label<T>(label, disc()->type().memory_size());
+            if (l != default_value_)
+            {
+                new_labels[l] = member.name();
+                if (first_label == default_value_)
+                {
+                    first_label = l;
+                }
+            }
+        }
+
+        if (is_default && first_label == default_value_)
+        {
+            new_labels[default_value_] = member.name(); // If this default has no other labels, must be added now.
+        }
+
         Member& inner = insert_member(member);
         Member* disc_ = disc();
 
@@ -125,28 +146,12 @@ public:
         }
 
         // Add labels
-        int64_t first_label = default_value_;
-        for (T label : labels)
-        {
-            int64_t l = shrink_label<T>(label, disc()->type().memory_size());
-            if (l != default_value_)
-            {
-                labels_[l] = inner.name();
-                if (first_label == default_value_)
-                {
-                    first_label = l;
-                }
-            }
-        }
+        labels_.merge(new_labels);
 
         if (is_default)
         {
             has_default_ = true;
             default_ = first_label;
-            if (default_ == default_value_)
-            {
-                labels_[default_] = inner.name(); // If this default has no other labels, must be added now.
-            }
         }
 
         // The value used when there isn't a selected member cannot be a label.
-- 
2.43.0


From 29a0e6632d34ba31a82f0fd4b0e86b7c0caef4c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:18 +0000
Subject: [PATCH 63/79] fix: read the enumerators that have annotations, as the
 generator writes them

---
 include/xtypes/idl/grammar.hpp |  2 +-
 include/xtypes/idl/parser.hpp  | 28 ++++++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 5b144ce..7f38f45 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -152,7 +152,7 @@ CASE_LABEL <- KW_CASE < CONST_EXPR > COLON / < KW_DEFAULT > COLON
 ELEMENT_SPEC <- (ANNOTATION_APPL)* TYPE_SPEC DECLARATOR
 UNION_FORWARD_DCL <- KW_UNION < IDENTIFIER >
 ENUM_DCL <- KW_ENUM IDENTIFIER OPEN_BRACE ENUMERATOR (COMMA ENUMERATOR)* CLOSE_BRACE
-ENUMERATOR <- (ANNOTATION_APPL)* IDENTIFIER
+ENUMERATOR <- (ANNOTATION_APPL WS?)* IDENTIFIER
 ARRAY_DECLARATOR <- IDENTIFIER FIXED_ARRAY_SIZE+
 FIXED_ARRAY_SIZE <- OPEN_BRACKET POSITIVE_INT_CONST CLOSE_BRACKET
 NATIVE_DCL <- KW_NATIVE SIMPLE_DECLARATOR
diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 0d0796c..df9ec3c 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1391,12 +1391,36 @@ private:
                 ast);
         for (size_t idx = 1; idx < ast->nodes.size(); ++idx)
         {
-            const auto& token_view = ast->nodes[idx]->token;
+            const auto& enumerator = ast->nodes[idx];
+            std::string_view token_view = enumerator->token;
+            std::shared_ptr<peg::Ast> value;
+            if (enumerator->tag == "ENUMERATOR"_) // It has annotations before its identifier.
+            {
+                token_view = enumerator->nodes.back()->token;
+                for (const auto& node : enumerator->nodes)
+                {
+                    if (node->tag == "ANNOTATION_APPL"_ && node->nodes[0]->token == "value")
+                    {
+                        value = node->nodes[1];
+                        if (value->tag == "ANNOTATION_APPL_PARAM"_) // @value(value = N)
+                        {
+                            value = value->nodes.back();
+                        }
+                    }
+                }
+            }
             const std::string token(token_view.data(), token_view.size());
             context_->log(log::LogLevel::xDEBUG, "ENUM_DCL_VALUE",
                     "Adding \"" + token + "\" to enum \"" + name + "\"",
                     ast);
-            result.add_enumerator(token);
+            if (value)
+            {
+                result.add_enumerator(token, solve_expr(primitive_type<uint32_t>(), value, outer).value<uint32_t>());
+            }
+            else
+            {
+                result.add_enumerator(token);
+            }
             // Little hack. Don't judge me.
             DynamicData hack(primitive_type<uint32_t>());
             hack = result.value(token);
-- 
2.43.0


From 15e4124eb641558542c89e5737900af8e032ce14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:18 +0000
Subject: [PATCH 64/79] fix: keep the member of a union which has only one case

---
 include/xtypes/idl/parser.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index df9ec3c..1389139 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1585,7 +1585,14 @@ private:
                     break;
                 }
                 case "SWITCH_BODY"_:
-                    switch_body(node, outer, member_list, type);
+                    if (node->tag == "CASE"_) // The body has only one case
+                    {
+                        switch_case(node, outer, member_list, type);
+                    }
+                    else
+                    {
+                        switch_body(node, outer, member_list, type);
+                    }
                     break;
             }
         }
-- 
2.43.0


From 5384a880a5404b4cbf9f26cc596263b01e98353c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:18 +0000
Subject: [PATCH 65/79] fix: operate from left to right the operators of a
 constant expression

---
 include/xtypes/idl/grammar.hpp |  6 +--
 include/xtypes/idl/parser.hpp  | 79 +++++++++++++---------------------
 2 files changed, 33 insertions(+), 52 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 7f38f45..a32202b 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -69,9 +69,9 @@ CONST_TYPE <-
 CONST_EXPR <- XOR_EXPR OR_OP CONST_EXPR / XOR_EXPR
 XOR_EXPR <- AND_EXPR XOR_OP XOR_EXPR / AND_EXPR
 AND_EXPR <- SHIFT_EXPR AND_OP AND_EXPR / SHIFT_EXPR
-SHIFT_EXPR <- ADD_EXPR ANY_SHITF_OP SHIFT_EXPR / ADD_EXPR
-ADD_EXPR <- MULT_EXPR ANY_ADD_OP ADD_EXPR / MULT_EXPR
-MULT_EXPR <- UNARY_EXPR ANY_MULT_OP MULT_EXPR / UNARY_EXPR
+SHIFT_EXPR <- ADD_EXPR (ANY_SHITF_OP ADD_EXPR)*
+ADD_EXPR <- MULT_EXPR (ANY_ADD_OP MULT_EXPR)*
+MULT_EXPR <- UNARY_EXPR (ANY_MULT_OP UNARY_EXPR)*
 UNARY_EXPR <- UNARY_OP PRIMARY_EXPR / PRIMARY_EXPR
 PRIMARY_EXPR <- OPEN_PARENTHESES CONST_EXPR CLOSE_PARENTHESES / SCOPED_OR_LITERAL
 SCOPED_OR_LITERAL <- LITERAL / SCOPED_NAME
diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 1389139..b22d1c4 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1293,60 +1293,41 @@ private:
             }
             break;
             case "MULT_EXPR"_:
-            {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                if (ast->nodes[1]->tag == "MULT_OP"_)
-                {
-                    DynamicData temp(lho* rho);
-                    result = temp;
-                }
-                else if (ast->nodes[1]->tag == "DIV_OP"_)
-                {
-                    DynamicData temp(lho / rho);
-                    result = temp;
-                    //return lho / rho;
-                }
-                else if (ast->nodes[1]->tag == "MOD_OP"_)
-                {
-                    DynamicData temp(lho % rho);
-                    result = temp;
-                }
-            }
-            break;
             case "ADD_EXPR"_:
-            {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                DynamicData temp(type);
-                if (ast->nodes[1]->tag == "ADD_OP"_)
-                {
-                    temp = DynamicData(lho + rho);
-                }
-                else if (ast->nodes[1]->tag == "SUB_OP"_)
-                {
-                    temp = DynamicData(lho - rho);
-                }
-                result = temp;
-            }
-            break;
             case "SHIFT_EXPR"_:
             {
-                DynamicData lho = solve_expr(type, ast->nodes[0], outer);
-                DynamicData rho = solve_expr(type, ast->nodes[2], outer);
-
-                DynamicData temp(type);
-                if (ast->nodes[1]->tag == "LSHIFT_OP"_)
-                {
-                    temp = DynamicData(lho << rho);
-                }
-                else if (ast->nodes[1]->tag == "RSHIFT_OP"_)
+                // These operators are left associative: operand (operator operand)+
+                result = solve_expr(type, ast->nodes[0], outer);
+                for (size_t idx = 1; idx + 1 < ast->nodes.size(); idx += 2)
                 {
-                    temp = DynamicData(lho >> rho);
+                    DynamicData lho(result);
+                    DynamicData rho = solve_expr(type, ast->nodes[idx + 1], outer);
+
+                    switch (ast->nodes[idx]->tag)
+                    {
+                        case "MULT_OP"_:
+                            result = DynamicData(lho * rho);
+                            break;
+                        case "DIV_OP"_:
+                            result = DynamicData(lho / rho);
+                            break;
+                        case "MOD_OP"_:
+                            result = DynamicData(lho % rho);
+                            break;
+                        case "ADD_OP"_:
+                            result = DynamicData(lho + rho);
+                            break;
+                        case "SUB_OP"_:
+                            result = DynamicData(lho - rho);
+                            break;
+                        case "LSHIFT_OP"_:
+                            result = DynamicData(lho << rho);
+                            break;
+                        case "RSHIFT_OP"_:
+                            result = DynamicData(lho >> rho);
+                            break;
+                    }
                 }
-                result = temp;
             }
             break;
             case "AND_EXPR"_:
-- 
2.43.0


From 166b1bfaa8fa62953b3c9786dfea679df069eda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:18 +0000
Subject: [PATCH 66/79] fix: apply the operator ~ of a constant expression

---
 include/xtypes/idl/parser.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index b22d1c4..42effb4 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1290,6 +1290,11 @@ private:
                     DynamicData temp(-result);
                     result = temp;
                 }
+                else if (ast->nodes[0]->tag == "NEG_OP"_)
+                {
+                    DynamicData temp(~result);
+                    result = temp;
+                }
             }
             break;
             case "MULT_EXPR"_:
-- 
2.43.0


From f8a66d6bd83cbee85894bdf5bdd7f9288a60b326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:18 +0000
Subject: [PATCH 67/79] fix: read every kind of dimension: octal and
 hexadecimal literals and constants

---
 include/xtypes/idl/parser.hpp | 75 +++++------------------------------
 1 file changed, 10 insertions(+), 65 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 42effb4..c2c6909 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -984,7 +984,7 @@ private:
             name = resolve_identifier(node, node->nodes[0]->token, outer, context_->ignore_redefinition);
             for (size_t idx = 1; idx < node->nodes.size(); ++idx)
             {
-                dimensions.push_back(std::atoi(node->nodes[idx]->token.data()));
+                dimensions.push_back(get_dimension(outer, node->nodes[idx]));
             }
             type = get_array_type(dimensions, type);
         }
@@ -1977,23 +1977,8 @@ private:
             case "STRING_TYPE"_:
                 return StringType();
             case "STRING_SIZE"_:
-                if (outer->has_constant(token))
-                {
-                    return StringType(get_dimension(token, outer, node));
-                }
-                return StringType(std::atoi(token.c_str()));
+                return StringType(get_dimension(outer, node));
             case "WIDE_STRING_TYPE"_:
-                if (outer->has_constant(token))
-                {
-                    if (context_->wchar_type == Context::WCHAR_T)
-                    {
-                        return WStringType(get_dimension(token, outer, node));
-                    }
-                    else // CHAR16_T
-                    {
-                        return String16Type(get_dimension(token, outer, node));
-                    }
-                }
                 if (context_->wchar_type == Context::WCHAR_T)
                 {
                     return WStringType();
@@ -2005,11 +1990,11 @@ private:
             case "WSTRING_SIZE"_:
                 if (context_->wchar_type == Context::WCHAR_T)
                 {
-                    return WStringType(std::atoi(token.c_str()));
+                    return WStringType(get_dimension(outer, node));
                 }
                 else // CHAR16_T
                 {
-                    return String16Type(std::atoi(token.c_str()));
+                    return String16Type(get_dimension(outer, node));
                 }
             case "SEQUENCE_TYPE"_:
             {
@@ -2094,15 +2079,15 @@ private:
         const auto& token_view = node->token;
         const std::string token(token_view.data(), token_view.size());
 
-        if (node->tag == "SCOPED_NAME"_)
+        if (token.empty())
         {
-            return get_dimension(token, outer, node);
+            return 0;
         }
-        else if (!token.empty())
+        else if (token.find_first_of("0123456789") != 0)
         {
-            return std::stoul(token);
+            return get_dimension(token, outer, node);
         }
-        return 0;
+        return std::stoul(token, nullptr, 0); // The literal may be octal or hexadecimal
     }
 
     ArrayType::Ptr get_array_type(
@@ -2227,49 +2212,9 @@ private:
                             break;
                         }
                         case "INTEGER_LITERAL"_:
-                        {
-                            dimensions.push_back(std::stoul(subnode->token.data()));
-                            break;
-                        }
                         case "SCOPED_NAME"_:
                         {
-                            DynamicData c_data =
-                                    outer->constant(std::string(subnode->token.data(),
-                                            subnode->token.size()));
-                            size_t dim = 0;
-                            switch (c_data.type().kind())
-                            {
-                                case TypeKind::INT_8_TYPE:
-                                    dim = c_data.value<int8_t>();
-                                    break;
-                                case TypeKind::UINT_8_TYPE:
-                                    dim = c_data.value<uint8_t>();
-                                    break;
-                                case TypeKind::INT_16_TYPE:
-                                    dim = c_data.value<int16_t>();
-                                    break;
-                                case TypeKind::UINT_16_TYPE:
-                                    dim = c_data.value<uint16_t>();
-                                    break;
-                                case TypeKind::INT_32_TYPE:
-                                    dim = c_data.value<int32_t>();
-                                    break;
-                                case TypeKind::UINT_32_TYPE:
-                                    dim = c_data.value<uint32_t>();
-                                    break;
-                                case TypeKind::INT_64_TYPE:
-                                    dim = c_data.value<int64_t>();
-                                    break;
-                                case TypeKind::UINT_64_TYPE:
-                                    dim = c_data.value<uint64_t>();
-                                    break;
-                                default:
-                                    context_->log(log::LogLevel::xERROR, "EXCEPTION",
-                                            "Only a positive intenger number can be used as dimension.",
-                                            node);
-                                    throw exception("Only a positive intenger number can be used as dimension.", node);
-                            }
-                            dimensions.push_back(dim);
+                            dimensions.push_back(get_dimension(outer, subnode));
                             break;
                         }
                     }
-- 
2.43.0


From d7a8dc443acde1094e94d6fd336f575c96d8aa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:18 +0000
Subject: [PATCH 68/79] fix: refuse the types that aren't supported instead of
 looping forever

---
 include/xtypes/idl/parser.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index c2c6909..928ad25 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -2018,14 +2018,13 @@ private:
                 return MapType(*key_type, *inner_type, size);
             }
             default:
-                return type_spec(node, outer);
+                break;
         }
 
         context_->log(log::LogLevel::xERROR, "UNKNOWN_TYPE",
                 token,
                 node);
-
-        return DynamicType::Ptr();
+        throw exception("Type " + node->name + " isn't supported", node);
     }
 
     size_t get_dimension(
-- 
2.43.0


From e7b403093ba784fa4291cd3e2f96b7697b48b9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:54 +0000
Subject: [PATCH 69/79] fix: declare all the aliases of a typedef with several
 declarators

---
 include/xtypes/idl/parser.hpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 928ad25..f7e5e46 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -971,16 +971,36 @@ private:
         using namespace peg::udl;
 
         DynamicType::Ptr type = type_spec(ast->nodes[0], outer);
+
+        if (ast->nodes[1]->tag == "ANY_DECLARATORS"_) // Several aliases
+        {
+            for (const auto& node : ast->nodes[1]->nodes)
+            {
+                alias_declarator(node, type, outer);
+            }
+        }
+        else
+        {
+            alias_declarator(ast->nodes[1], type, outer);
+        }
+    }
+
+    void alias_declarator(
+            const std::shared_ptr<peg::Ast>& node,
+            DynamicType::Ptr type,
+            std::shared_ptr<Module>& outer)
+    {
+        using namespace peg::udl;
+
         std::string name;
         std::vector<size_t> dimensions;
 
-        if (ast->nodes[1]->tag == "IDENTIFIER"_)
+        if (node->tag == "IDENTIFIER"_)
         {
-            name = resolve_identifier(ast, ast->nodes[1]->token, outer, context_->ignore_redefinition);
+            name = resolve_identifier(node, node->token, outer, context_->ignore_redefinition);
         }
-        else if (ast->nodes[1]->tag == "ARRAY_DECLARATOR"_)
+        else if (node->tag == "ARRAY_DECLARATOR"_)
         {
-            auto& node = ast->nodes[1];
             name = resolve_identifier(node, node->nodes[0]->token, outer, context_->ignore_redefinition);
             for (size_t idx = 1; idx < node->nodes.size(); ++idx)
             {
-- 
2.43.0


From c7796f13504d22edc22bc2674ef919e9de3ffa07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:54 +0000
Subject: [PATCH 70/79] fix: give the IDL to the preprocessor as it is,
 whatever the shell would make of it

---
 include/xtypes/idl/parser.hpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index f7e5e46..bed3aff 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -311,21 +311,11 @@ private:
             const std::string& from,
             const std::string& to) const
     {
-        size_t froms = from.size();
-        size_t tos = to.size();
         size_t pos = str.find(from);
-        const std::string escaped = "\\\\\"";
-        size_t escaped_size = escaped.size();
         while (pos != std::string::npos)
         {
-            str.replace(pos, froms, to);
-            pos = str.find(from, pos + tos);
-            while (str[pos - 1] == '\\')
-            {
-                str.replace(pos, froms, escaped);
-                pos = str.find(from, pos + escaped_size);
-            }
-
+            str.replace(pos, from.size(), to);
+            pos = str.find(from, pos + to.size());
         }
     }
 
@@ -366,10 +356,10 @@ inline std::string PreprocessorContext::preprocess_string<PreprocessorContext::p
     {
         args += include_flag + inc_path + " ";
     }
-    // Escape double quotes inside the idl_string
+    // Quote the idl_string: the shell must not interpret anything inside it
     std::string escaped_idl_string = idl_string;
-    replace_all_string(escaped_idl_string, "\"", "\\\"");
-    std::string cmd = "echo \"" + escaped_idl_string + "\" | "
+    replace_all_string(escaped_idl_string, "'", "'\\''");
+    std::string cmd = "printf '%s\\n' '" + escaped_idl_string + "' | "
             + preprocessor_exec + " " + args + error_redir;
 
     log(log::LogLevel::xDEBUG, "PREPROCESS",
-- 
2.43.0


From 22045438430302ba600e0a0ed88ec6f89f0fb47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:54 +0000
Subject: [PATCH 71/79] fix: read the denormal floating point literals and the
 lowest 64 bit integer

---
 include/xtypes/idl/parser.hpp | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index bed3aff..fc3be0f 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -45,6 +45,7 @@
 #include <filesystem>
 #include <fstream>
 #include <functional>
+#include <limits>
 #include <map>
 #include <memory>
 #include <regex>
@@ -1020,6 +1021,28 @@ private:
         outer->create_constant(std::string(identifier.data(), identifier.size()), expr);
     }
 
+    /// \brief Reads a floating point value, which may be denormal.
+    template<typename T>
+    static T float_value(
+            const char* literal,
+            T (* read)(const std::string&, size_t*),
+            T (* read_any)(const char*, char**))
+    {
+        try
+        {
+            return read(literal, nullptr);
+        }
+        catch (const std::out_of_range&)
+        {
+            T value = read_any(literal, nullptr);
+            if (value == std::numeric_limits<T>::infinity())
+            {
+                throw;
+            }
+            return value;
+        }
+    }
+
     bool get_literal_value(
             DynamicData& data,
             const std::shared_ptr<peg::Ast>& ast) const
@@ -1113,7 +1136,8 @@ private:
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("INTEGER"), ast);
                 }
-                int64_t value = static_cast<int64_t>(std::strtoll(literal.data(), nullptr, base));
+                // The literal of the lowest value, without its sign, is greater than the highest one
+                int64_t value = static_cast<int64_t>(std::strtoull(literal.data(), nullptr, base));
                 data = value;
                 break;
             }
@@ -1234,7 +1258,7 @@ private:
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("FLOAT"), ast);
                 }
-                float value = std::stof(literal.data(), nullptr);
+                float value = float_value<float>(literal.data(), std::stof, std::strtof);
                 data = value;
                 break;
             }
@@ -1244,7 +1268,7 @@ private:
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("FLOAT"), ast);
                 }
-                double value = std::stod(literal.data(), nullptr);
+                double value = float_value<double>(literal.data(), std::stod, std::strtod);
                 data = value;
                 break;
             }
@@ -1254,7 +1278,7 @@ private:
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("FLOAT"), ast);
                 }
-                long double value = std::stold(literal.data(), nullptr);
+                long double value = float_value<long double>(literal.data(), std::stold, std::strtold);
                 data = value;
                 break;
             }
-- 
2.43.0


From 31ca1103b08dd2dc0c7331afeccd79662af8df06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:34 +0000
Subject: [PATCH 72/79] fix: take the characters of a literal without its
 quotes, its prefix and its escape sequences

---
 include/xtypes/idl/parser.hpp | 166 ++++++++++++++++++++++++++++++----
 1 file changed, 146 insertions(+), 20 deletions(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index fc3be0f..c73bf6f 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -40,6 +40,7 @@
 #   include <unistd.h>
 #endif //_MSC_VER
 
+#include <algorithm>
 #include <array>
 #include <exception>
 #include <filesystem>
@@ -1021,6 +1022,122 @@ private:
         outer->create_constant(std::string(identifier.data(), identifier.size()), expr);
     }
 
+    /// \brief Takes the text of a character or string literal: what is between its quotes, if it has them.
+    static std::string_view quoted_text(
+            std::string_view literal)
+    {
+        size_t first = literal.find_first_of("'\"");
+        if (first == std::string_view::npos || first > 1)
+        {
+            return literal;
+        }
+
+        size_t last = first + 1;
+        while (last < literal.size() && literal[last] != literal[first])
+        {
+            last += (literal[last] == '\\') ? 2 : 1; // An escaped quote isn't the last one
+        }
+        return literal.substr(first + 1, last - first - 1);
+    }
+
+    /// \brief Reads an escape sequence.
+    /// \param[in] text Text which contains it.
+    /// \param[inout] pos Position of its backslash. It is moved after the sequence.
+    /// \return The character or the code that it stands for.
+    static char32_t escape_sequence(
+            std::string_view text,
+            size_t& pos)
+    {
+        ++pos; // The backslash
+        if (pos == text.size())
+        {
+            return U'\\';
+        }
+
+        auto number = [&](const char* digits, size_t max_length) -> char32_t
+                {
+                    size_t length = 0;
+                    while (length < max_length && pos + length < text.size()
+                            && std::string_view(digits).find(text[pos + length]) != std::string_view::npos)
+                    {
+                        ++length;
+                    }
+                    std::string value(text.substr(pos, length));
+                    pos += length;
+                    return static_cast<char32_t>(std::strtoul(value.c_str(), nullptr, std::string_view(digits).size() > 8 ? 16 : 8));
+                };
+
+        char c = text[pos++];
+        switch (c)
+        {
+            case 'n': return U'\n';
+            case 't': return U'\t';
+            case 'v': return U'\v';
+            case 'b': return U'\b';
+            case 'r': return U'\r';
+            case 'f': return U'\f';
+            case 'a': return U'\a';
+            case 'x': return number("0123456789abcdefABCDEF", 2);
+            case 'u': return number("0123456789abcdefABCDEF", 4);
+            case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7':
+                --pos;
+                return number("01234567", 3);
+            default:
+                return static_cast<unsigned char>(c);
+        }
+    }
+
+    /// \brief Reads a literal as bytes.
+    static std::string narrow_text(
+            std::string_view literal)
+    {
+        std::string_view text = quoted_text(literal);
+        std::string result;
+        for (size_t pos = 0; pos < text.size();)
+        {
+            if (text[pos] != '\\')
+            {
+                result.push_back(text[pos++]);
+                continue;
+            }
+
+            bool is_unicode = text.substr(pos, 2) == "\\u";
+            char32_t code = escape_sequence(text, pos);
+            if (is_unicode)
+            {
+                auto utf8 = code_conversion_tool<XTYPES_CHAR>(std::u32string(1, code));
+                result.append(utf8.begin(), utf8.end());
+            }
+            else
+            {
+                result.push_back(static_cast<char>(code));
+            }
+        }
+        return result;
+    }
+
+    /// \brief Reads a literal as characters.
+    static std::u32string wide_text(
+            std::string_view literal)
+    {
+        std::string_view text = quoted_text(literal);
+        std::u32string result;
+        for (size_t pos = 0; pos < text.size();)
+        {
+            if (text[pos] == '\\')
+            {
+                result.push_back(escape_sequence(text, pos));
+                continue;
+            }
+
+            size_t end = std::min(text.find('\\', pos), text.size());
+            std::basic_string<XTYPES_CHAR> utf8(text.begin() + pos, text.begin() + end);
+            result.append(code_conversion_tool<char32_t>(utf8));
+            pos = end;
+        }
+        return result;
+    }
+
     /// \brief Reads a floating point value, which may be denormal.
     template<typename T>
     static T float_value(
@@ -1157,7 +1274,7 @@ private:
                 {
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("CHAR"), ast);
                 }
-                char value = literal.at(0);
+                char value = narrow_text(literal).at(0);
                 data = value;
                 break;
             }
@@ -1168,9 +1285,7 @@ private:
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("WIDE_CHAR"), ast);
                 }
 
-                std::basic_string<XTYPES_CHAR> aux(literal.begin(), literal.end());
-                auto temp = code_conversion_tool<char16_t>(aux);
-                data = temp[0];
+                data = static_cast<char16_t>(wide_text(literal).at(0));
                 break;
             }
             case TypeKind::WIDE_CHAR_TYPE:
@@ -1180,19 +1295,15 @@ private:
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("WIDE_CHAR"), ast);
                 }
 
-                std::basic_string<XTYPES_CHAR> aux(literal.begin(), literal.end());
-                auto aux2 = code_conversion_tool<char16_t>(aux);
-                std::wstring temp(aux2.begin(), aux2.end());
-                data = temp[0];
+                data = static_cast<wchar_t>(wide_text(literal).at(0));
                 break;
             }
             case TypeKind::STRING_TYPE:
             {
-                const auto& aux_view = literal.substr(literal.find("\"") + 1, literal.rfind("\"") - 1);
-                std::string aux(aux_view.data(), aux_view.size());
+                std::string aux = narrow_text(literal);
                 for (auto& node : ast->nodes) // SUBSTRING_LITERAL
                 {
-                    aux.append(node->token.substr(node->token.find("\"") + 1, node->token.rfind("\"") - 1));
+                    aux.append(narrow_text(node->token));
                 }
 
                 if (tag != "STRING_LITERAL"_ && tag != "UNEXPECTED_LITERAL"_)
@@ -1205,11 +1316,10 @@ private:
             }
             case TypeKind::WSTRING_TYPE:
             {
-                const auto& aux_view = literal.substr(literal.find("\"") + 1, literal.rfind("\"") - 1);
-                std::string aux(aux_view.data(), aux_view.size());
-                for (auto& node : ast->nodes) // SUBSTRING_LITERAL
+                std::u32string aux = wide_text(literal);
+                for (auto& node : ast->nodes) // WIDE_SUBSTRING_LITERAL
                 {
-                    aux.append(node->token.substr(node->token.find("\"") + 1, node->token.rfind("\"") - 1));
+                    aux.append(wide_text(node->token));
                 }
 
                 if (tag != "WIDE_STRING_LITERAL"_ && tag != "WIDE_SUBSTRING_LITERAL"_)
@@ -1217,15 +1327,31 @@ private:
                     context_->log(log::LogLevel::xWARNING, "UNEXPECTED_LITERAL", message("WIDE_STRING"), ast);
                 }
 
-                std::basic_string<XTYPES_CHAR> aux2(literal.begin(), literal.end());
-                auto temp = code_conversion_tool<char16_t>(aux2);
-                data = std::wstring(temp.begin(), temp.end());
+                data = std::wstring(aux.begin(), aux.end());
                 break;
             }
             case TypeKind::STRING16_TYPE:
             {
-                std::basic_string<XTYPES_CHAR> aux(literal.begin(), literal.end());
-                data = code_conversion_tool<char16_t>(aux);
+                std::u32string aux = wide_text(literal);
+                for (auto& node : ast->nodes) // WIDE_SUBSTRING_LITERAL
+                {
+                    aux.append(wide_text(node->token));
+                }
+
+                std::u16string text;
+                for (char32_t code : aux)
+                {
+                    if (code < 0x10000)
+                    {
+                        text.push_back(static_cast<char16_t>(code));
+                    }
+                    else
+                    {
+                        text.push_back(static_cast<char16_t>(0xD800 + ((code - 0x10000) >> 10)));
+                        text.push_back(static_cast<char16_t>(0xDC00 + ((code - 0x10000) & 0x3FF)));
+                    }
+                }
+                data = text;
                 break;
             }
             case TypeKind::BOOLEAN_TYPE:
-- 
2.43.0


From 5bbff2228e0a8ee8ac57ca515e13c78042775e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:54 +0000
Subject: [PATCH 73/79] fix: solve the labels of an union as constant
 expressions of its discriminator

---
 include/xtypes/idl/grammar.hpp |   3 +-
 include/xtypes/idl/parser.hpp  | 135 ++++++++++++++++++++++++++++-----
 2 files changed, 120 insertions(+), 18 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index a32202b..9513808 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -148,7 +148,8 @@ UNION_DEF <- KW_UNION IDENTIFIER KW_SWITCH OPEN_PARENTHESES SWITCH_TYPE_SPEC CLO
 SWITCH_TYPE_SPEC <- INTEGER_TYPE / CHAR_TYPE / BOOLEAN_TYPE / WIDE_CHAR_TYPE / OCTET_TYPE / SCOPED_NAME
 SWITCH_BODY <- CASE+
 CASE <- CASE_LABEL+ ELEMENT_SPEC SEMICOLON
-CASE_LABEL <- KW_CASE < CONST_EXPR > COLON / < KW_DEFAULT > COLON
+CASE_LABEL <- KW_CASE CONST_EXPR COLON / DEFAULT_LABEL COLON
+DEFAULT_LABEL <- KW_DEFAULT
 ELEMENT_SPEC <- (ANNOTATION_APPL)* TYPE_SPEC DECLARATOR
 UNION_FORWARD_DCL <- KW_UNION < IDENTIFIER >
 ENUM_DCL <- KW_ENUM IDENTIFIER OPEN_BRACE ENUMERATOR (COMMA ENUMERATOR)* CLOSE_BRACE
diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index c73bf6f..65b295e 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -653,7 +653,14 @@ public:
 private:
 
     friend struct Context;
-    using LabelsCaseMemberPair = std::pair<std::vector<std::string>, Member>;
+
+    struct LabelsCaseMember
+    {
+        std::vector<int64_t> labels;
+        bool is_default;
+        Member member;
+    };
+
 
     peg::parser parser_;
     Context* context_;
@@ -1711,7 +1718,7 @@ private:
     {
         using namespace peg::udl;
         std::string name;
-        std::vector<LabelsCaseMemberPair> member_list;
+        std::vector<LabelsCaseMember> member_list;
         DynamicType::Ptr type;
         for (const auto& node : ast->nodes)
         {
@@ -1762,20 +1769,19 @@ private:
         context_->log(log::LogLevel::xDEBUG, "UNION_DEF",
                 "Union \"" + name + "\" definition.",
                 ast);
-        for (auto& pair : member_list)
+        for (auto& case_member : member_list)
         {
-            Member& member = pair.second;
             context_->log(log::LogLevel::xDEBUG, "UNION_DEF_MEMBER",
-                    "Union \"" + name + "\" member: " + member.name(),
+                    "Union \"" + name + "\" member: " + case_member.member.name(),
                     ast);
-            union_type.add_case_member(pair.first, std::move(member));
+            union_type.add_case_member(case_member.labels, case_member.member, case_member.is_default);
         }
     }
 
     void switch_body(
             const std::shared_ptr<peg::Ast>& ast,
             std::shared_ptr<Module>& outer,
-            std::vector<LabelsCaseMemberPair>& member_list,
+            std::vector<LabelsCaseMember>& member_list,
             const DynamicType::Ptr type)
     {
         using namespace peg::udl;
@@ -1801,11 +1807,12 @@ private:
     void switch_case(
             const std::shared_ptr<peg::Ast>& ast,
             std::shared_ptr<Module>& outer,
-            std::vector<LabelsCaseMemberPair>& member_list,
-            const DynamicType::Ptr)
+            std::vector<LabelsCaseMember>& member_list,
+            const DynamicType::Ptr type)
     {
         using namespace peg::udl;
-        std::vector<std::string> labels;
+        std::vector<int64_t> labels;
+        bool is_default = false;
         std::vector<Member> member;
 
         for (const auto& node : ast->nodes)
@@ -1814,27 +1821,121 @@ private:
             {
                 case "CASE_LABEL"_:
                 {
-                    const auto& value_view = node->token;
-                    std::string value(value_view.data(), value_view.size());
-                    if (outer->has_constant(value))
+                    if (node->tag != "DEFAULT_LABEL"_)
+                    {
+                        labels.push_back(label_value(*type, node, outer));
+                    }
+                    else if (is_default)
                     {
-                        DynamicData constant = outer->constant(value);
-                        value = constant.cast<std::string>();
+                        std::string message = "Received two 'default' cases.";
+                        context_->log(log::LogLevel::xERROR, "EXCEPTION", message, node);
+                        throw exception(message, node);
+                    }
+                    else
+                    {
+                        is_default = true;
                     }
-                    labels.emplace_back(std::move(value));
                     break;
                 }
                 case "ELEMENT_SPEC"_:
                 {
                     case_member_def(node, outer, member);
                     // Label cases only have one member per case.
-                    member_list.emplace_back(std::make_pair(std::move(labels), std::move(member.at(0))));
+                    member_list.push_back(LabelsCaseMember{std::move(labels), is_default, std::move(member.at(0))});
                     break;
                 }
             }
         }
     }
 
+    /// \brief Solves the expression of a label.
+    int64_t label_value(
+            const DynamicType& discriminator,
+            const std::shared_ptr<peg::Ast>& node,
+            std::shared_ptr<Module>& outer) const
+    {
+        using namespace peg::udl;
+        const DynamicType& type = discriminator.kind() == TypeKind::ALIAS_TYPE
+                ? static_cast<const AliasType&>(discriminator).rget()
+                : discriminator;
+
+        if (node->tag == "SCOPED_NAME"_)
+        {
+            std::string name(node->token.data(), node->token.size());
+            if (type.kind() == TypeKind::ENUMERATION_TYPE)
+            {
+                size_t scope = name.rfind("::");
+                std::string enumerator = scope == std::string::npos ? name : name.substr(scope + 2);
+                const auto& enumerators = static_cast<const EnumerationType<uint32_t>&>(type).enumerators();
+                auto it = enumerators.find(enumerator);
+                if (it != enumerators.end())
+                {
+                    return static_cast<int64_t>(it->second);
+                }
+            }
+            if (!outer->has_constant(name))
+            {
+                std::string message = "Label " + name + " is unknown";
+                context_->log(log::LogLevel::xERROR, "EXCEPTION", message, node);
+                throw exception(message, node);
+            }
+            return discriminator_value(outer->constant(name), node);
+        }
+
+        if (type.kind() == TypeKind::BOOLEAN_TYPE && node->tag != "BOOLEAN_LITERAL"_)
+        {
+            std::string message = "Only 'TRUE' or 'FALSE' are allowed in a bool label.";
+            context_->log(log::LogLevel::xERROR, "EXCEPTION", message, node);
+            throw exception(message, node);
+        }
+
+        if (type.kind() == TypeKind::ENUMERATION_TYPE)
+        {
+            return discriminator_value(solve_expr(primitive_type<uint32_t>(), node, outer), node);
+        }
+        return discriminator_value(solve_expr(type, node, outer), node);
+    }
+
+    int64_t discriminator_value(
+            const DynamicData& data,
+            const std::shared_ptr<peg::Ast>& node) const
+    {
+        switch (data.type().kind())
+        {
+            case TypeKind::BOOLEAN_TYPE:
+                return data.value<bool>() ? 1 : 0;
+            case TypeKind::CHAR_8_TYPE:
+                return static_cast<int64_t>(data.value<char>());
+            case TypeKind::CHAR_16_TYPE:
+                return static_cast<int64_t>(data.value<char16_t>());
+            case TypeKind::WIDE_CHAR_TYPE:
+                return static_cast<int64_t>(data.value<wchar_t>());
+            case TypeKind::INT_8_TYPE:
+                return data.value<int8_t>();
+            case TypeKind::UINT_8_TYPE:
+                return data.value<uint8_t>();
+            case TypeKind::INT_16_TYPE:
+                return data.value<int16_t>();
+            case TypeKind::UINT_16_TYPE:
+                return data.value<uint16_t>();
+            case TypeKind::INT_32_TYPE:
+                return data.value<int32_t>();
+            case TypeKind::UINT_32_TYPE:
+            case TypeKind::ENUMERATION_TYPE:
+                return data.value<uint32_t>();
+            case TypeKind::INT_64_TYPE:
+                return data.value<int64_t>();
+            case TypeKind::UINT_64_TYPE:
+                return static_cast<int64_t>(data.value<uint64_t>());
+            default:
+            {
+                std::string message = "A " + data.type().name() + " cannot be a label.";
+                context_->log(log::LogLevel::xERROR, "EXCEPTION", message, node);
+                throw exception(message, node);
+            }
+        }
+    }
+
     void case_member_def(
             const std::shared_ptr<peg::Ast>& ast,
             std::shared_ptr<Module>& outer,
-- 
2.43.0


From 9e7881ca4000ee93eed692faa87ec0b868417c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:38:28 +0000
Subject: [PATCH 74/79] fix: read the constants of an enumeration given by
 their value

---
 include/xtypes/idl/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 65b295e..b8916a7 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -1245,6 +1245,7 @@ private:
                 break;
             }
             case TypeKind::UINT_32_TYPE:
+            case TypeKind::ENUMERATION_TYPE: // As the generator writes it
             {
                 if (tag != "INTEGER_LITERAL"_)
                 {
-- 
2.43.0


From 801ffeee64125f0996b065d7ed775138a1eb3a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:18 +0000
Subject: [PATCH 75/79] fix: let the typedefs and the members hide the symbols
 of the enclosing modules

---
 include/xtypes/idl/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index b8916a7..347409f 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -867,7 +867,7 @@ private:
             context_->log(log::LogLevel::xINFO, "RESERVED_WORD", message.str(), ast);
         }
 
-        if (scope->has_symbol(std::string(identifier.data(), identifier.size())))
+        if (scope->has_symbol(std::string(identifier.data(), identifier.size()), false))
         {
             std::stringstream message;
             message << "The identifier \"" << identifier << "\" is already used.";
-- 
2.43.0


From b1c3bb1530fa33f308a55484933190b720754fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:16 +0000
Subject: [PATCH 76/79] fix: accept a comment after a tab

---
 include/xtypes/idl/grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 9513808..3dc5c77 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -295,7 +295,7 @@ FLOAT_TYPE_SUFFIX <- [dD]
 ~KW_OPEN_BLOCK_COMMENT <- < "/*" >
 ~KW_CLOSE_BLOCK_COMMENT <- < "*/" >
 # SYMBOLS
-~WS <- COMMENT / [ \t\r\n]+
+~WS <- (COMMENT / [ \t\r\n]+)+
 ~SEMICOLON <- WS? < ';' > WS?
 ~COLON <- WS? < ':' > WS?
 ~DOUBLE_COLON <- "::"
-- 
2.43.0


From 7b210bbcb21f52da37ccaa824dfae41cd78cdf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:16 +0000
Subject: [PATCH 77/79] fix: accept the constants of type octet

---
 include/xtypes/idl/grammar.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 3dc5c77..5a81f1d 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -59,6 +59,7 @@ CONST_TYPE <-
     CHAR_TYPE /
     WIDE_CHAR_TYPE /
     BOOLEAN_TYPE /
+    OCTET_TYPE /
     STRING_TYPE /
     WIDE_STRING_TYPE /
     SCOPED_NAME
-- 
2.43.0


From fe58517c1454ea69fdc21a18a241ac12b7704ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:55 +0000
Subject: [PATCH 78/79] fix: don't tell the success of a previous text after
 one that is refused

---
 include/xtypes/idl/parser.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xtypes/idl/parser.hpp b/include/xtypes/idl/parser.hpp
index 347409f..8684b0b 100644
--- a/include/xtypes/idl/parser.hpp
+++ b/include/xtypes/idl/parser.hpp
@@ -531,6 +531,7 @@ public:
     {
         context.instance_ = shared_from_this();
         context_ = &context;
+        context_->success = false; // Unless this text is parsed, whatever happened with a previous one
         std::shared_ptr<peg::Ast> ast;
 
         if (!parser_.parse(idl_string.c_str(), ast))
-- 
2.43.0


From 89fe88b8d9a83b6ff35ce96943ecee6405b5836b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:55 +0000
Subject: [PATCH 79/79] fix: accept several annotations before a declaration

---
 include/xtypes/idl/grammar.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/xtypes/idl/grammar.hpp b/include/xtypes/idl/grammar.hpp
index 5a81f1d..cff2fd3 100644
--- a/include/xtypes/idl/grammar.hpp
+++ b/include/xtypes/idl/grammar.hpp
@@ -34,7 +34,7 @@ DOCUMENT <- WS? SPECIFICATION WS?
 SPECIFICATION <- DEFINITION+
 DEFINITION <- (MODULE_DCL / CONST_DCL / TYPE_DCL / ANNOTATION_DCL) SEMICOLON / PREPROCESSOR_DIRECTIVE
 
-MODULE_DCL <- (ANNOTATION_APPL)* KW_MODULE IDENTIFIER OPEN_BRACE DEFINITION+ CLOSE_BRACE
+MODULE_DCL <- (ANNOTATION_APPL WS?)* KW_MODULE IDENTIFIER OPEN_BRACE DEFINITION+ CLOSE_BRACE
 #SCOPED_NAME <- DOUBLE_COLON IDENTIFIER / (IDENTIFIER DOUBLE_COLON)* IDENTIFIER
 SCOPED_NAME <- < IDENTIFIER DOUBLE_COLON SCOPED_NAME / DOUBLE_COLON SCOPED_NAME / IDENTIFIER >
 
@@ -137,11 +137,11 @@ STRING_SIZE <- OPEN_ANG_BRACKET < POSITIVE_INT_CONST > CLOSE_ANG_BRACKET
 WSTRING_SIZE <- OPEN_ANG_BRACKET < POSITIVE_INT_CONST > CLOSE_ANG_BRACKET
 COLLECTION_SIZE <- COMMA POSITIVE_INT_CONST
 
-CONSTR_TYPE_DLC <- (ANNOTATION_APPL)* (STRUCT_DCL / UNION_DCL / ENUM_DCL / BITSET_DCL / BITMASK_DCL)
+CONSTR_TYPE_DLC <- (ANNOTATION_APPL WS?)* (STRUCT_DCL / UNION_DCL / ENUM_DCL / BITSET_DCL / BITMASK_DCL)
 STRUCT_DCL <- STRUCT_DEF / STRUCT_FORWARD_DCL
 STRUCT_DEF <- KW_STRUCT IDENTIFIER INHERITANCE? OPEN_BRACE MEMBER* CLOSE_BRACE
 INHERITANCE <- COLON SCOPED_NAME
-MEMBER <- (ANNOTATION_APPL)* TYPE_SPEC DECLARATORS SEMICOLON
+MEMBER <- (ANNOTATION_APPL WS?)* TYPE_SPEC DECLARATORS SEMICOLON
 STRUCT_FORWARD_DCL <- KW_STRUCT < IDENTIFIER >
 UNION_DCL <- UNION_DEF / UNION_FORWARD_DCL
 UNION_DEF <- KW_UNION IDENTIFIER KW_SWITCH OPEN_PARENTHESES SWITCH_TYPE_SPEC CLOSE_PARENTHESES
@@ -151,7 +151,7 @@ SWITCH_BODY <- CASE+
 CASE <- CASE_LABEL+ ELEMENT_SPEC SEMICOLON
 CASE_LABEL <- KW_CASE CONST_EXPR COLON / DEFAULT_LABEL COLON
 DEFAULT_LABEL <- KW_DEFAULT
-ELEMENT_SPEC <- (ANNOTATION_APPL)* TYPE_SPEC DECLARATOR
+ELEMENT_SPEC <- (ANNOTATION_APPL WS?)* TYPE_SPEC DECLARATOR
 UNION_FORWARD_DCL <- KW_UNION < IDENTIFIER >
 ENUM_DCL <- KW_ENUM IDENTIFIER OPEN_BRACE ENUMERATOR (COMMA ENUMERATOR)* CLOSE_BRACE
 ENUMERATOR <- (ANNOTATION_APPL WS?)* IDENTIFIER
@@ -172,7 +172,7 @@ MAP_INNER_TYPE <- TYPE_SPEC
 MAP_KEY_TYPE <- TYPE_SPEC
 MAP_SIZE <- COLLECTION_SIZE?
 BITSET_DCL <- KW_BITSET IDENTIFIER INHERITANCE? OPEN_BRACE BITFIELD* CLOSE_BRACE
-BITFIELD <- (ANNOTATION_APPL)* BITFIELD_SPEC IDENTIFIER* SEMICOLON
+BITFIELD <- (ANNOTATION_APPL WS?)* BITFIELD_SPEC IDENTIFIER* SEMICOLON
 BITFIELD_SPEC <- KW_BITFIELD OPEN_ANG_BRACKET POSITIVE_INT_CONST (COMMA DESTINATION_TYPE)? CLOSE_ANG_BRACKET
 DESTINATION_TYPE <- BOOLEAN_TYPE / OCTET_TYPE / INTEGER_TYPE
 BITMASK_DCL <- KW_BITMASK IDENTIFIER OPEN_BRACE BIT_VALUE (COMMA BIT_VALUE)* CLOSE_BRACE
-- 
2.43.0

