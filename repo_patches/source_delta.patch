From 7d77ae3a451435863122bc51145e8cc0fc744728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:02 +0000
Subject: [PATCH 01/33] fix: compare whole names when sorting message
 definitions

A message whose name is the start of the name of another message, a message
using a type defined more than one level inside of itself and a nested type
whose concatenated name equals that of another message where placed in the
wrong order or refused as a circular dependency.
---
 generator/EmbeddedProto/ProtoFile.py       | 9 +++------
 generator/EmbeddedProto/TypeDefinitions.py | 2 +-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index ad61918..06a16b6 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -38,7 +38,6 @@ from google.protobuf.descriptor_pb2 import FieldDescriptorProto
 
 def toposort_add_msg(msg, namespace, dependency_data):
 
-    local_definitions = []
     local_namespace = namespace + "." + msg.name
 
     dependencies = {namespace}
@@ -46,20 +45,18 @@ def toposort_add_msg(msg, namespace, dependency_data):
     for nested_msg in msg.nested_type:
         dependency_data = toposort_add_msg(nested_msg, local_namespace, dependency_data)
         full_msg_type = local_namespace + "." + nested_msg.name
-        local_definitions.append(full_msg_type)
         for dep in dependency_data[full_msg_type]:
             # Add requirements on other namespaces.
-            if not dep.startswith(local_namespace):
+            if (dep != local_namespace) and (not dep.startswith(local_namespace + ".")):
                 dependencies.add(dep)
 
     for nested_enum in msg.enum_type:
         full_enum_type = local_namespace + "." + nested_enum.name
         dependency_data[full_enum_type] = {local_namespace}
-        local_definitions.append(full_enum_type)
 
     for f in msg.field:
         if ((FieldDescriptorProto.TYPE_MESSAGE == f.type) or (FieldDescriptorProto.TYPE_ENUM == f.type)) \
-                and (f.type_name not in local_definitions):
+                and (not f.type_name.startswith(local_namespace + ".")):
             dependencies.add(f.type_name)
 
     # If we have any dependencies add them
@@ -119,7 +116,7 @@ class ProtoFile:
             # Based on the desired order assign each message definition an index.
             for index, msg_name in enumerate(message_order):
                 for msg_def in self.msg_definitions:
-                    if msg_def.name == msg_name.replace(my_scope + ".", ''):
+                    if msg_name == my_scope + "." + msg_def.name:
                         msg_def.sorted_index = index
                         break
 
diff --git a/generator/EmbeddedProto/TypeDefinitions.py b/generator/EmbeddedProto/TypeDefinitions.py
index 8a61af4..2c216d1 100644
--- a/generator/EmbeddedProto/TypeDefinitions.py
+++ b/generator/EmbeddedProto/TypeDefinitions.py
@@ -181,7 +181,7 @@ class MessageDefinition(TypeDefinition):
 
         for index, msg_name in enumerate(message_order):
             for msg_def in self.nested_msg_definitions:
-                if msg_def.name == msg_name.replace(my_scope + ".", ''):
+                if msg_name == my_scope + "." + msg_def.name:
                     msg_def.sorted_index = index
                     break
 
-- 
2.43.0


From a1149fb1d51530391f7a2f1daf31f760b93e59ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:02 +0000
Subject: [PATCH 02/33] fix: register the template parameters of repeated
 messages with maxLength

A repeated field with the maxLength option and a message type which has
template parameters resulted in code which did not compile.
---
 generator/EmbeddedProto/Field.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index 0c48167..5535c72 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -533,8 +533,9 @@ class FieldRepeated(Field):
         self.actual_type.match_field_with_definitions(all_types_definitions)
 
     def register_template_parameters(self):
-        # If we do not have a max length defined register the template parameter.
-        if not self.MaxLength:
+        # If we do not have a max length defined, or if the repeated type has template parameters of its own, register
+        # the template parameters.
+        if self.get_template_parameters():
             self.parent.register_child_with_template(self)
         return True
 
-- 
2.43.0


From ea41259a0c2c0a5b5f2e6a9e7f988d326c301ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:17 +0000
Subject: [PATCH 03/33] fix: skip the data of recursive fields which are left
 out

The data of such a field was not read from the buffer, after which its
content was interpreted as the fields of the message itself.
---
 generator/EmbeddedProto/Field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index 5535c72..b6de9a0 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -569,4 +569,5 @@ class FieldErrorRecursive(Field):
         return ""
 
     def render_deserialize(self, jinja_env):
-        return ""
+        # As this field is left out its data is skipped like that of an unknown field.
+        return "return_value = skip_unknown_field(buffer, wire_type);"
-- 
2.43.0


From 79c884c38f780deb54fb1bf024c7353863cc5503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:03 +0000
Subject: [PATCH 04/33] fix: let WriteBufferFixedSize accept data which fits
 exactly

The array push refused data filling the buffer completely and its size check could overflow.
---
 src/WriteBufferFixedSize.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/WriteBufferFixedSize.h b/src/WriteBufferFixedSize.h
index 6e0fc83..e1d0774 100644
--- a/src/WriteBufferFixedSize.h
+++ b/src/WriteBufferFixedSize.h
@@ -33,6 +33,7 @@
 
 #include "WriteBufferInterface.h"
 #include <array>
+#include <cstring>
 
 namespace EmbeddedProto 
 {
@@ -85,7 +86,7 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::WriteBufferInterface::push()
       bool push(const uint8_t* bytes, const uint32_t length) override
       {
-        bool return_value = BUFFER_SIZE > (write_index_ + length);
+        bool return_value = get_available_size() >= length;
         if(return_value)
         {
           memcpy(data_.data() + write_index_, bytes, length);
-- 
2.43.0


From 0503b1d6500bcaddec2ec05c0442e0786d0c13f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:03 +0000
Subject: [PATCH 05/33] fix: do not let ReadBufferFixedSize::advance(N) wrap
 around

The addition could overflow which moved the read index backwards, allowing endless loops on invalid data.
---
 src/ReadBufferFixedSize.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ReadBufferFixedSize.h b/src/ReadBufferFixedSize.h
index ed38e9e..1cf1ae9 100644
--- a/src/ReadBufferFixedSize.h
+++ b/src/ReadBufferFixedSize.h
@@ -32,6 +32,7 @@
 #define _READ_BUFFER_FIXED_H_
 
 #include "ReadBufferInterface.h"
+#include <algorithm>
 #include <array>
 
 namespace EmbeddedProto 
@@ -88,11 +89,10 @@ namespace EmbeddedProto
       //! \see ::EmbeddedProto::ReadBufferInterface::advance(const uint32_t N)
       bool advance(const uint32_t N) override
       {
-        const uint32_t new_read_index = read_index_ + N;
-        const bool return_value = write_index_ >= new_read_index;
+        const bool return_value = (write_index_ >= read_index_) && ((write_index_ - read_index_) >= N);
         if(return_value)
         {
-          read_index_ = new_read_index;
+          read_index_ += N;
         }
         return return_value;
       }
-- 
2.43.0


From f23635a1c8a085a95191fec1151f6c72885f69a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:27 +0000
Subject: [PATCH 06/33] fix: report a full buffer in the middle of a varint

The result of an earlier push was overwritten by the result of the last push.
---
 src/WireFormatter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index 6db0422..61e8743 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -532,7 +532,7 @@ namespace EmbeddedProto
           memory_free = buffer.push(static_cast<uint8_t>(value | VARINT_MSB_BYTE));
           value >>= VARINT_SHIFT_N_BITS;
         }
-        memory_free = buffer.push(static_cast<uint8_t>(value));
+        memory_free = buffer.push(static_cast<uint8_t>(value)) && memory_free;
 
         const Error return_value = memory_free ? Error::NO_ERRORS : Error::BUFFER_FULL;
         return return_value;
-- 
2.43.0


From 24fcb1e3306ad183e10a1d7becad83d182ccc5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:27 +0000
Subject: [PATCH 07/33] fix: deserialize a boolean as varint

Only the first byte was read. The remaining bytes of a longer varint were taken as the next tag.
---
 src/WireFormatter.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index 61e8743..b28fe32 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -483,15 +483,12 @@ namespace EmbeddedProto
 
       static Error DeserializeBool(ReadBufferInterface& buffer, bool& value) 
       {
-        uint8_t byte;
-        Error result = Error::NO_ERRORS;
-        if(buffer.pop(byte))
-        {
-          value = static_cast<bool>(byte);
-        }
-        else 
+        // A boolean is a varint on the wire, it is allowed to have more than one byte.
+        uint64_t uint_value64;
+        const Error result = DeserializeVarint(buffer, uint_value64);
+        if(Error::NO_ERRORS == result)
         {
-          result = Error::END_OF_BUFFER;
+          value = (0 != uint_value64);
         }
         return result;
       }
-- 
2.43.0


From 11f2332fdad1a039fe1b11e29581fe9b89dfddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:27 +0000
Subject: [PATCH 08/33] fix: report an unknown field with a group wire type as
 invalid

The tag was accepted as if it was a complete field, the data in the group was parsed as fields of the message.
---
 src/MessageInterface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index db9b4b6..1665764 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -114,7 +114,8 @@ namespace EmbeddedProto
         break;
 
       default:
-        // We should never get here. DeserializeTag catches this case.
+        // The deprecated groups are not supported.
+        return_value = Error::INVALID_WIRETYPE;
         break;
     }
 
-- 
2.43.0


From 8d74c4e8929f5e3198647f8bf3d78f43643e44f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:47 +0000
Subject: [PATCH 09/33] fix: do not reuse old data when a repeated field grows

After the field was shortened by set_data() or an assignment the elements at the end kept their value. When
accessing the next index, or when deserializing the next message or string, the old data showed up again.
---
 src/RepeatedFieldFixedSize.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/RepeatedFieldFixedSize.h b/src/RepeatedFieldFixedSize.h
index 5a00e1c..1d9cabe 100644
--- a/src/RepeatedFieldFixedSize.h
+++ b/src/RepeatedFieldFixedSize.h
@@ -111,7 +111,7 @@ namespace EmbeddedProto
         uint32_t limited_index = std::min(index, MAX_LENGTH-1);
         // Check if we need to update the number of elements in the array.
         if(limited_index >= current_length_) {
-          current_length_ = limited_index + 1;
+          grow(limited_index + 1);
         }
         return data_[limited_index]; 
       }
@@ -141,7 +141,7 @@ namespace EmbeddedProto
         uint32_t limited_index = std::min(index, MAX_LENGTH-1);
         // Check if we need to update the number of elements in the array.
         if(limited_index >= current_length_) {
-          current_length_ = limited_index + 1;
+          grow(limited_index + 1);
         }
         data_[limited_index] = value;  
       }
@@ -195,6 +195,15 @@ namespace EmbeddedProto
 
     private:
 
+      //! Increase the number of elements in use, the added elements have their default value.
+      void grow(const uint32_t length)
+      {
+        for(; current_length_ < length; ++current_length_)
+        {
+          data_[current_length_].clear();
+        }
+      }
+
       //! Number of item in the data array.
       uint32_t current_length_ = 0;
 
-- 
2.43.0


From 70539c60dce327787d71b2aef31e5d9d58ab9780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:05 +0000
Subject: [PATCH 10/33] fix: do not leave old characters behind the content of
 a string

After setting a shorter content the old characters stayed in the array. The c string was not terminated behind
the new content and the old characters became part of it when extended by index.
---
 src/FieldStringBytes.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index 605da20..61569bc 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -38,6 +38,7 @@
 #include <cstdint>
 #include <cstring>
 #include <type_traits>
+#include <algorithm>
 #include <array>
 
 
@@ -163,6 +164,8 @@ namespace EmbeddedProto
           {
             current_length_ = length;
             memcpy(data_.data(), data, length);
+            // Do not leave any previous content behind the new content.
+            std::fill(data_.begin() + length, data_.end(), 0);
           }
           else
           {
@@ -337,12 +340,8 @@ namespace EmbeddedProto
         if(nullptr != str) {
           const uint32_t str_MAX_LENGTH = strnlen(str, MAX_LENGTH + 1);
           this->set_length(str_MAX_LENGTH);
-          uint32_t this_length = this->get_length();
-          // If it fits in this object copy the null terminator.
-          if(MAX_LENGTH > this_length) {
-            ++this_length;
-          }
-          strncpy(this->get(), str, this_length);
+          // This also fills the space which is left, including the null terminator, with zeros.
+          strncpy(this->get(), str, MAX_LENGTH);
         }
         else {
           this->clear();
-- 
2.43.0


From 5a2b9368d2e1c2ce300a9bc1f856f341a61bab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:05 +0000
Subject: [PATCH 11/33] fix: accept repeated base fields which are not packed

Protobuf parsers must accept both the packed and the unpacked form.
---
 src/RepeatedField.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index d6ea279..e4b4948 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -223,12 +223,25 @@ namespace EmbeddedProto
       Error deserialize_check_type(::EmbeddedProto::ReadBufferInterface& buffer, 
                                    const ::EmbeddedProto::WireFormatter::WireType& wire_type) final
       {
-        Error return_value = ::EmbeddedProto::WireFormatter::WireType::LENGTH_DELIMITED == wire_type 
-                             ? Error::NO_ERRORS : Error::INVALID_WIRETYPE;
-        if(Error::NO_ERRORS == return_value)  
+        Error return_value = Error::NO_ERRORS;
+        if(::EmbeddedProto::WireFormatter::WireType::LENGTH_DELIMITED == wire_type)
         {
           return_value = this->deserialize(buffer);
         }
+        else if(REPEATED_FIELD_IS_PACKED)
+        {
+          // Base fields could also be serialized unpacked, as a number of single elements.
+          DATA_TYPE x;
+          return_value = x.deserialize_check_type(buffer, wire_type);
+          if(Error::NO_ERRORS == return_value)
+          {
+            return_value = this->add(x);
+          }
+        }
+        else
+        {
+          return_value = Error::INVALID_WIRETYPE;
+        }
         return return_value;
       }
 
-- 
2.43.0


From 2b2d695f380a56984053c1f49133d2d937b71683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:14 +0000
Subject: [PATCH 12/33] fix: limit advance(n) to the bytes in the buffer and
 report it

As documented in the interface the advance is limited and the result tells if the buffer held all bytes. The fixed
size buffer did not move at all, the payload of a field which is cut off was parsed as fields of the message.
---
 src/ReadBufferFixedSize.h | 5 +++++
 src/ReadBufferSection.cpp | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ReadBufferFixedSize.h b/src/ReadBufferFixedSize.h
index 1cf1ae9..e411319 100644
--- a/src/ReadBufferFixedSize.h
+++ b/src/ReadBufferFixedSize.h
@@ -94,6 +94,11 @@ namespace EmbeddedProto
         {
           read_index_ += N;
         }
+        else if(write_index_ > read_index_)
+        {
+          // Limit the advance to the number of bytes in the buffer.
+          read_index_ = write_index_;
+        }
         return return_value;
       }
 
diff --git a/src/ReadBufferSection.cpp b/src/ReadBufferSection.cpp
index c0c09a9..ba10c69 100644
--- a/src/ReadBufferSection.cpp
+++ b/src/ReadBufferSection.cpp
@@ -81,7 +81,7 @@ namespace EmbeddedProto
     if(result) 
     {
       uint32_t n = (n_bytes <= size_) ? n_bytes : size_;
-      result = buffer_.advance(n);
+      result = buffer_.advance(n) && (n_bytes == n);
       size_ -= n;
     }
     return result;
-- 
2.43.0


From e41049afcb47e7a03b4e44787fc17da10a9b146d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:14 +0000
Subject: [PATCH 13/33] fix: report nested messages which are cut off

When the buffer ended, or refused to give the next byte, between two fields of a nested message this was accepted
as if the nested message was complete. The same for a field in the nested message which runs past its end.
---
 src/MessageInterface.cpp  |  4 ++++
 src/ReadBufferSection.cpp | 13 ++++++++++++-
 src/ReadBufferSection.h   | 10 ++++++++++
 src/RepeatedField.h       |  4 ++++
 4 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index 1665764..d4fb0c1 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -84,6 +84,10 @@ namespace EmbeddedProto
       if(::EmbeddedProto::Error::NO_ERRORS == return_value)
       {
         return_value = deserialize(bufferSection);
+        if((::EmbeddedProto::Error::NO_ERRORS == return_value) && !bufferSection.is_complete(size))
+        {
+          return_value = ::EmbeddedProto::Error::END_OF_BUFFER;
+        }
       }
     }
     return return_value;
diff --git a/src/ReadBufferSection.cpp b/src/ReadBufferSection.cpp
index ba10c69..1df6c82 100644
--- a/src/ReadBufferSection.cpp
+++ b/src/ReadBufferSection.cpp
@@ -71,6 +71,7 @@ namespace EmbeddedProto
     {
       result = buffer_.advance();
       --size_;
+      cut_off_ |= !result;
     }
     return result;
   }
@@ -83,6 +84,7 @@ namespace EmbeddedProto
       uint32_t n = (n_bytes <= size_) ? n_bytes : size_;
       result = buffer_.advance(n) && (n_bytes == n);
       size_ -= n;
+      cut_off_ |= !result;
     }
     return result;
   }
@@ -93,9 +95,18 @@ namespace EmbeddedProto
     if(result)
     {
       result = buffer_.pop(byte);
-      --size_;
+      if(result)
+      {
+        --size_;
+      }
+      cut_off_ |= !result;
     }
     return result;
   }
 
+  bool ReadBufferSection::is_complete(const uint32_t size) const
+  {
+    return (size == max_size_) && (0 == size_) && !cut_off_;
+  }
+
 } // End of namespace EmbeddedProto
diff --git a/src/ReadBufferSection.h b/src/ReadBufferSection.h
index 83d13ee..9c5f859 100644
--- a/src/ReadBufferSection.h
+++ b/src/ReadBufferSection.h
@@ -100,6 +100,13 @@ namespace EmbeddedProto
       */
       bool pop(uint8_t& byte) override;
 
+      //! Check if all bytes of this section are taken from the parent buffer.
+      /*!
+        \param size The number of bytes requested when constructing this section.
+        \return False when there are bytes left, or when the parent buffer ended before the end of this section.
+      */
+      bool is_complete(const uint32_t size) const;
+
     private:
 
       //! A reference to the buffer containing the actual data.
@@ -110,6 +117,9 @@ namespace EmbeddedProto
 
       //! The total number of bytes masked of by this section.
       const uint32_t max_size_;
+
+      //! Did the parent buffer, or this section, end before everything requested was read.
+      bool cut_off_ = false;
   };
 
 } // End of namespace EmbeddedProto
diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index e4b4948..219d892 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -393,6 +393,10 @@ namespace EmbeddedProto
             {
               ReadBufferSection bufferSection(buffer, size);
               return_value = this->get(index).deserialize(bufferSection);
+              if((Error::NO_ERRORS == return_value) && !bufferSection.is_complete(size))
+              {
+                return_value = Error::END_OF_BUFFER;
+              }
             }
           }
           else 
-- 
2.43.0


From 86ea01ba4bb88da65b910a9145c2cb44b854812b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:14 +0000
Subject: [PATCH 14/33] fix: report packed repeated fields which are cut off

An error in the length and an incomplete last element were ignored.
---
 src/RepeatedField.h | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index 219d892..7aa1201 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -352,23 +352,24 @@ namespace EmbeddedProto
       {
         uint32_t size = 0;
         Error return_value = WireFormatter::DeserializeVarint(buffer, size);
-        ReadBufferSection bufferSection(buffer, size);
-        DATA_TYPE x;
-        
-        return_value = x.deserialize(bufferSection);
-        while(Error::NO_ERRORS == return_value)
+        if(Error::NO_ERRORS == return_value)
         {
-          return_value = this->add(x);
-          if(Error::NO_ERRORS == return_value)
+          ReadBufferSection bufferSection(buffer, size);
+          DATA_TYPE x;
+
+          while((Error::NO_ERRORS == return_value) && (0 < bufferSection.get_size()))
           {
             return_value = x.deserialize(bufferSection);
+            if(Error::NO_ERRORS == return_value)
+            {
+              return_value = this->add(x);
+            }
           }
-        }
 
-        // We expect the buffersection to be empty, in that case everything is fine..
-        if(Error::END_OF_BUFFER == return_value)
-        {
-          return_value = Error::NO_ERRORS;
+          if((Error::NO_ERRORS == return_value) && !bufferSection.is_complete(size))
+          {
+            return_value = Error::END_OF_BUFFER;
+          }
         }
 
         return return_value;
-- 
2.43.0


From d51ad3839e3ed3ec1ec2b814e5d7c9377b9d3287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:01 +0000
Subject: [PATCH 15/33] fix: report a message which is cut off in a tag or in
 an unknown field

The end of the buffer within the tag of a field was taken as the end of the message. The payload of an unknown
field being incomplete was not noticed.
---
 generator/EmbeddedProto/Field.py              |  2 +-
 .../EmbeddedProto/templates/TypeDefMsg.h      |  9 +++--
 src/MessageInterface.cpp                      |  9 +++--
 src/MessageInterface.h                        |  7 ++--
 src/WireFormatter.h                           | 37 ++++++++++++++++++-
 5 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index b6de9a0..74ebe44 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -570,4 +570,4 @@ class FieldErrorRecursive(Field):
 
     def render_deserialize(self, jinja_env):
         # As this field is left out its data is skipped like that of an unknown field.
-        return "return_value = skip_unknown_field(buffer, wire_type);"
+        return "return_value = skip_unknown_field(buffer, wire_type, cut_off);"
diff --git a/generator/EmbeddedProto/templates/TypeDefMsg.h b/generator/EmbeddedProto/templates/TypeDefMsg.h
index 6c7b0c9..38ba350 100644
--- a/generator/EmbeddedProto/templates/TypeDefMsg.h
+++ b/generator/EmbeddedProto/templates/TypeDefMsg.h
@@ -187,8 +187,9 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
       ::EmbeddedProto::WireFormatter::WireType wire_type = ::EmbeddedProto::WireFormatter::WireType::VARINT;
       uint32_t id_number = 0;
       FieldNumber id_tag = FieldNumber::NOT_SET;
+      bool cut_off = false;
 
-      ::EmbeddedProto::Error tag_value = ::EmbeddedProto::WireFormatter::DeserializeTag(buffer, wire_type, id_number);
+      ::EmbeddedProto::Error tag_value = ::EmbeddedProto::WireFormatter::DeserializeTag(buffer, wire_type, id_number, cut_off);
       while((::EmbeddedProto::Error::NO_ERRORS == return_value) && (::EmbeddedProto::Error::NO_ERRORS == tag_value))
       {
         id_tag = static_cast<FieldNumber>(id_number);
@@ -213,21 +214,21 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
             break;
 
           default:
-            return_value = skip_unknown_field(buffer, wire_type);
+            return_value = skip_unknown_field(buffer, wire_type, cut_off);
             break;
         }
 
         if(::EmbeddedProto::Error::NO_ERRORS == return_value)
         {
           // Read the next tag.
-          tag_value = ::EmbeddedProto::WireFormatter::DeserializeTag(buffer, wire_type, id_number);
+          tag_value = ::EmbeddedProto::WireFormatter::DeserializeTag(buffer, wire_type, id_number, cut_off);
         }
       }
 
       // When an error was detect while reading the tag but no other errors where found, set it in the return value.
       if((::EmbeddedProto::Error::NO_ERRORS == return_value)
          && (::EmbeddedProto::Error::NO_ERRORS != tag_value)
-         && (::EmbeddedProto::Error::END_OF_BUFFER != tag_value)) // The end of the buffer is not an array in this case.
+         && ((::EmbeddedProto::Error::END_OF_BUFFER != tag_value) || cut_off)) // The end of the buffer is not an error between two fields.
       {
         return_value = tag_value;
       }
diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index d4fb0c1..3d88c35 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -95,7 +95,8 @@ namespace EmbeddedProto
 
 
   Error MessageInterface::skip_unknown_field(::EmbeddedProto::ReadBufferInterface& buffer,
-                                             const ::EmbeddedProto::WireFormatter::WireType& wire_type) const
+                                             const ::EmbeddedProto::WireFormatter::WireType& wire_type,
+                                             bool& cut_off) const
   {
     Error return_value = Error::NO_ERRORS;
 
@@ -110,7 +111,7 @@ namespace EmbeddedProto
         break;
 
       case ::EmbeddedProto::WireFormatter::WireType::LENGTH_DELIMITED:
-        return_value = skip_length_delimited(buffer);
+        return_value = skip_length_delimited(buffer, cut_off);
         break;
 
       case ::EmbeddedProto::WireFormatter::WireType::FIXED32:
@@ -147,14 +148,14 @@ namespace EmbeddedProto
     return ::EmbeddedProto::WireFormatter::DeserializeDouble(buffer, dummy);
   }
 
-  Error MessageInterface::skip_length_delimited(::EmbeddedProto::ReadBufferInterface& buffer) const
+  Error MessageInterface::skip_length_delimited(::EmbeddedProto::ReadBufferInterface& buffer, bool& cut_off) const
   {
     // First read the number of bytes 
     uint32_t n_bytes = 0;
     const Error return_value = ::EmbeddedProto::WireFormatter::DeserializeVarint(buffer, n_bytes);
     if(Error::NO_ERRORS == return_value)
     {
-      buffer.advance(n_bytes);
+      cut_off = !buffer.advance(n_bytes);
     }
     return return_value;
   }
diff --git a/src/MessageInterface.h b/src/MessageInterface.h
index d297c4a..dbd1003 100644
--- a/src/MessageInterface.h
+++ b/src/MessageInterface.h
@@ -72,15 +72,16 @@ class MessageInterface : public ::EmbeddedProto::Field
     //! When deserializing skip the bytes in the buffer of an unknown field.
     /*! 
         This function is used when a field with an unknown id is encountered to move through the 
-        buffer to the next tag.
+        buffer to the next tag. The parameter cut_off is set when the buffer did not hold all the data of the field.
     */
     Error skip_unknown_field(::EmbeddedProto::ReadBufferInterface& buffer, 
-                             const ::EmbeddedProto::WireFormatter::WireType& wire_type) const;
+                             const ::EmbeddedProto::WireFormatter::WireType& wire_type,
+                             bool& cut_off) const;
 
     Error skip_varint(::EmbeddedProto::ReadBufferInterface& buffer) const;
     Error skip_fixed32(::EmbeddedProto::ReadBufferInterface& buffer) const;
     Error skip_fixed64(::EmbeddedProto::ReadBufferInterface& buffer) const;
-    Error skip_length_delimited(::EmbeddedProto::ReadBufferInterface& buffer) const;
+    Error skip_length_delimited(::EmbeddedProto::ReadBufferInterface& buffer, bool& cut_off) const;
 
 };
 
diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index b28fe32..9f2b16b 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -334,10 +334,30 @@ namespace EmbeddedProto
           \return A value from the EmbeddedProto::Error enum indicating if the process succeeded.
       */
       static Error DeserializeTag(ReadBufferInterface& buffer, WireType& type, uint32_t& id) 
+      {
+        bool cut_off = false;
+        return DeserializeTag(buffer, type, id, cut_off);
+      }
+
+      //! Read from the buffer the next wiretype and field id and see if the data ends where it should.
+      /*!
+          \param[in] buffer The data source from which to read the type and id.
+          \param[out] type This parameter returns the wiretype of the next field in the data buffer.
+          \param[out] id This parameter returns the next field id.
+          \param[in,out] cut_off Cleared when a tag is read, set when the buffer ends within the tag and not changed when 
+                                 the buffer ends before the tag.
+          \return A value from the EmbeddedProto::Error enum indicating if the process succeeded.
+      */
+      static Error DeserializeTag(ReadBufferInterface& buffer, WireType& type, uint32_t& id, bool& cut_off) 
       {
         uint32_t temp_value;
+        uint8_t n_bytes = 0;
         // Read the next varint considered to be a tag.
-        Error return_value = DeserializeVarint(buffer, temp_value);
+        Error return_value = DeserializeVarint(buffer, temp_value, n_bytes);
+        if(0 < n_bytes)
+        {
+          cut_off = (Error::END_OF_BUFFER == return_value);
+        }
         
         if(Error::NO_ERRORS == return_value) 
         {
@@ -543,6 +563,20 @@ namespace EmbeddedProto
       */
       template<class UINT_TYPE>
       static Error DeserializeVarint(ReadBufferInterface& buffer, UINT_TYPE& value) 
+      {
+        uint8_t n_bytes = 0;
+        return DeserializeVarint(buffer, value, n_bytes);
+      }
+
+      //! This function deserializes the following N bytes into a varint and tells how many bytes there were.
+      /*!
+        \param[in] buffer The data buffer from which bytes are popped.
+        \param[out] value The variable in which the varint is returned.
+        \param[out] n_bytes The number of bytes taken from the buffer.
+        \return A value from the Error enum, NO_ERROR in case everything is fine.
+      */
+      template<class UINT_TYPE>
+      static Error DeserializeVarint(ReadBufferInterface& buffer, UINT_TYPE& value, uint8_t& n_bytes) 
       {
         static_assert(std::is_same<UINT_TYPE, uint32_t>::value || 
                       std::is_same<UINT_TYPE, uint64_t>::value, 
@@ -569,6 +603,7 @@ namespace EmbeddedProto
           }
           ++i;
         } while((byte & VARINT_MSB_BYTE) && (i < N_BYTES_IN_VARINT) && result);
+        n_bytes = result ? i : (i - 1);
 
         Error return_value = Error::NO_ERRORS;
         if(result)
-- 
2.43.0


From ce53092334f777f679d3e3b45357f61190dbade6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:44 +0000
Subject: [PATCH 16/33] fix: serialize negative zero

Negative zero is not the default value of a float or double field, its sign was lost.
---
 generator/EmbeddedProto/templates/FieldBasic_Serialize.h | 2 ++
 generator/EmbeddedProto/templates/Header.h               | 1 +
 2 files changed, 3 insertions(+)

diff --git a/generator/EmbeddedProto/templates/FieldBasic_Serialize.h b/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
index 3ff4e42..e174509 100644
--- a/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
+++ b/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
@@ -29,6 +29,8 @@ Postal address:
 #}
 {% if (field.optional or (field.oneof is not none)) %}
 if(has_{{field.get_name()}}() && (::EmbeddedProto::Error::NO_ERRORS == return_value))
+{% elif field.get_cstdint_type() in ("float", "double") %}
+if((({{field.get_default_value()}} != {{field.get_variable_name()}}.get()) || std::signbit({{field.get_variable_name()}}.get())) && (::EmbeddedProto::Error::NO_ERRORS == return_value))
 {% else %}
 if(({{field.get_default_value()}} != {{field.get_variable_name()}}.get()) && (::EmbeddedProto::Error::NO_ERRORS == return_value))
 {% endif %}
diff --git a/generator/EmbeddedProto/templates/Header.h b/generator/EmbeddedProto/templates/Header.h
index c61b30d..39c15f4 100644
--- a/generator/EmbeddedProto/templates/Header.h
+++ b/generator/EmbeddedProto/templates/Header.h
@@ -47,6 +47,7 @@
 #include <FieldStringBytes.h>
 #include <Errors.h>
 #include <Defines.h>
+#include <cmath>
 #include <limits>
 
 {% endif %}
-- 
2.43.0


From 9b2687a361aa38a6cfc3ed38c6ebb51b616e5449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:57 +0000
Subject: [PATCH 17/33] fix: keep to_string within the character array

The space left was reduced by the length the text would have, causing writes behind the array when it was too
small. A string filling its field completely has no terminator, print the number of characters it has.
---
 .../EmbeddedProto/templates/TypeDefMsg.h      |  9 +++------
 src/Defines.h                                 | 10 ++++++++++
 src/FieldStringBytes.h                        | 19 +++++++------------
 src/Fields.h                                  |  9 +++------
 src/RepeatedField.h                           |  9 +++------
 5 files changed, 26 insertions(+), 30 deletions(-)

diff --git a/generator/EmbeddedProto/templates/TypeDefMsg.h b/generator/EmbeddedProto/templates/TypeDefMsg.h
index 38ba350..3bac031 100644
--- a/generator/EmbeddedProto/templates/TypeDefMsg.h
+++ b/generator/EmbeddedProto/templates/TypeDefMsg.h
@@ -290,8 +290,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
         if(0 < n_chars_used)
         {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_written(left_chars, n_chars_used);
         }
       }
 
@@ -320,8 +319,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
       
       if(0 < n_chars_used)
       {
-        left_chars.data += n_chars_used;
-        left_chars.size -= n_chars_used;
+        ::EmbeddedProto::skip_written(left_chars, n_chars_used);
       }
 
       {% for field in typedef.fields %}
@@ -343,8 +341,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
 
       if(0 < n_chars_used)
       {
-        left_chars.data += n_chars_used;
-        left_chars.size -= n_chars_used;
+        ::EmbeddedProto::skip_written(left_chars, n_chars_used);
       }
 
       return left_chars;
diff --git a/src/Defines.h b/src/Defines.h
index 6c86ed0..25b5ee5 100644
--- a/src/Defines.h
+++ b/src/Defines.h
@@ -83,6 +83,16 @@ namespace EmbeddedProto
   using string_view = array_view<char>;
   using bytes_view = array_view<uint8_t>;
 
+#ifdef MSG_TO_STRING
+  //! Move the view behind the characters written by snprintf. When the text did not fit no space is left.
+  inline void skip_written(string_view& view, const int32_t n_chars)
+  {
+    const uint32_t n = static_cast<uint32_t>(n_chars) < view.size ? static_cast<uint32_t>(n_chars) : view.size;
+    view.data += n;
+    view.size -= n;
+  }
+#endif // End of MSG_TO_STRING
+
 }
 
 #endif //_EMBEDDED_PROTO_DEFINES_H_
\ No newline at end of file
diff --git a/src/FieldStringBytes.h b/src/FieldStringBytes.h
index 61569bc..494b6fb 100644
--- a/src/FieldStringBytes.h
+++ b/src/FieldStringBytes.h
@@ -362,24 +362,22 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            ::EmbeddedProto::skip_written(left_chars, n_chars_used);
           }
         }
 
         if(nullptr != name)
         {
-          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\": \"%s\"", indent_level, " ", name, this->get_const());
+          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\": \"%.*s\"", indent_level, " ", name, static_cast<int>(this->get_length()), this->get_const());
         }
         else
         {
-          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%s\"", indent_level, " ", this->get_const());
+          n_chars_used = snprintf(left_chars.data, left_chars.size, "%*s\"%.*s\"", indent_level, " ", static_cast<int>(this->get_length()), this->get_const());
         }
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_written(left_chars, n_chars_used);
         }
 
         return left_chars;
@@ -442,8 +440,7 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            ::EmbeddedProto::skip_written(left_chars, n_chars_used);
           }
         }
 
@@ -458,8 +455,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_written(left_chars, n_chars_used);
         }
 
         uint32 field;
@@ -473,8 +469,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used)
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_written(left_chars, n_chars_used);
         }
 
         return left_chars;
diff --git a/src/Fields.h b/src/Fields.h
index 4e391f9..74de62a 100644
--- a/src/Fields.h
+++ b/src/Fields.h
@@ -252,8 +252,7 @@ namespace EmbeddedProto
           n_chars_used = snprintf(left_chars.data, left_chars.size, ",\n");
           if(0 < n_chars_used) {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            ::EmbeddedProto::skip_written(left_chars, n_chars_used);
           }
         }
 
@@ -271,8 +270,7 @@ namespace EmbeddedProto
         if(0 < n_chars_used)
         {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_written(left_chars, n_chars_used);
         }
 
         if constexpr((Field::FieldTypes::int32 == FIELDTYPE) ||
@@ -322,8 +320,7 @@ namespace EmbeddedProto
 
         if(0 < n_chars_used) {
           // Update the character pointer and characters left in the array.
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_written(left_chars, n_chars_used);
         }
 
         return left_chars;
diff --git a/src/RepeatedField.h b/src/RepeatedField.h
index 7aa1201..b8d5db8 100644
--- a/src/RepeatedField.h
+++ b/src/RepeatedField.h
@@ -284,8 +284,7 @@ namespace EmbeddedProto
           if(0 < n_chars_used)
           {
             // Update the character pointer and characters left in the array.
-            left_chars.data += n_chars_used;
-            left_chars.size -= n_chars_used;
+            ::EmbeddedProto::skip_written(left_chars, n_chars_used);
           }
         }
 
@@ -293,8 +292,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used) 
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_written(left_chars, n_chars_used);
         }
 
         for(uint32_t i = 0; i < this->get_length(); ++i)
@@ -306,8 +304,7 @@ namespace EmbeddedProto
         
         if(0 < n_chars_used)
         {
-          left_chars.data += n_chars_used;
-          left_chars.size -= n_chars_used;
+          ::EmbeddedProto::skip_written(left_chars, n_chars_used);
         }
 
         return left_chars;
-- 
2.43.0


From 810d763977ed2ee5de74ef0549b07ac87f02d1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:11 +0000
Subject: [PATCH 18/33] fix: no comma before the first field in to_string

When the first field is left out, because it is recursive or a oneof which is not set, the next field was preceded
by a comma.
---
 generator/EmbeddedProto/templates/TypeDefMsg.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/generator/EmbeddedProto/templates/TypeDefMsg.h b/generator/EmbeddedProto/templates/TypeDefMsg.h
index 3bac031..a46423d 100644
--- a/generator/EmbeddedProto/templates/TypeDefMsg.h
+++ b/generator/EmbeddedProto/templates/TypeDefMsg.h
@@ -322,13 +322,18 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
         ::EmbeddedProto::skip_written(left_chars, n_chars_used);
       }
 
+      {% if typedef.fields or typedef.oneofs %}
+      bool is_first = true;
+      {% endif %}
       {% for field in typedef.fields %}
       {%if "FieldErrorRecursive" != field.descriptor.type_name %}{# Test if this is an FieldErrorRecursive #}
-      left_chars = {{field.get_variable_name()}}.to_string(left_chars, indent_level + 2, {{field.get_name()|upper}}_NAME, {{ loop.first|lower }});
+      left_chars = {{field.get_variable_name()}}.to_string(left_chars, indent_level + 2, {{field.get_name()|upper}}_NAME, is_first);
+      is_first = false;
       {% endif %}
       {% endfor %}
       {% for oneof in typedef.oneofs %}
-      left_chars = to_string_{{oneof.get_name()}}(left_chars, indent_level + 2, {{((typedef.fields|length == 0) and loop.first)|lower }});
+      left_chars = to_string_{{oneof.get_name()}}(left_chars, indent_level + 2, is_first);
+      is_first = is_first && (FieldNumber::NOT_SET == {{oneof.get_which_oneof()}});
       {% endfor %}  
       if( 0 == indent_level) 
       {
-- 
2.43.0


From e1e319dfd8d94598a7bc1af8bb1d2ee360324807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:56 +0000
Subject: [PATCH 19/33] fix: accept an empty unknown field at the end of a
 nested message

---
 src/MessageInterface.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/MessageInterface.cpp b/src/MessageInterface.cpp
index 3d88c35..d4c1ee0 100644
--- a/src/MessageInterface.cpp
+++ b/src/MessageInterface.cpp
@@ -155,7 +155,8 @@ namespace EmbeddedProto
     const Error return_value = ::EmbeddedProto::WireFormatter::DeserializeVarint(buffer, n_bytes);
     if(Error::NO_ERRORS == return_value)
     {
-      cut_off = !buffer.advance(n_bytes);
+      // There is nothing to advance over when the field is empty.
+      cut_off = (0 < n_bytes) && !buffer.advance(n_bytes);
     }
     return return_value;
   }
-- 
2.43.0


From f2d6b247b1620bdb46223e84f667065afbbacedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:44 +0000
Subject: [PATCH 20/33] fix: make a valid header guard of every file name

---
 generator/EmbeddedProto/ProtoFile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index 06a16b6..254d2e8 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -30,6 +30,7 @@
 
 from .TypeDefinitions import *
 import os
+import re
 from toposort import CircularDependencyError, toposort_flatten
 from google.protobuf.descriptor_pb2 import FieldDescriptorProto
 
@@ -147,7 +148,9 @@ class ProtoFile:
         return result
 
     def get_header_guard(self):
-        return self.filename_with_folder.replace("/", "_").upper()
+        # The file name can hold characters which are not allowed in the name of a macro.
+        header_guard = re.sub("[^A-Za-z0-9_]", "_", self.filename_with_folder).upper()
+        return "_" + header_guard if header_guard[0].isdigit() else header_guard
 
     # Obtain a dictionary with references to all nested enums and messages
     def get_all_nested_types(self):
-- 
2.43.0


From 74ed629e57b7e3f97ea5d1b2712192e271a7f96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 21/33] fix: refuse messages defined in a scope with template
 parameters elsewhere

---
 generator/EmbeddedProto/Field.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index 74ebe44..813a52a 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -145,6 +145,17 @@ class Field:
         reduced_scope = def_scope[start_index:]
         return reduced_scope
 
+    # Types defined in the scope of a message with template parameters can only be used in that same scope.
+    def check_scope_templates(self, scopes):
+        for scope in scopes:
+            if scope["templates"]:
+                raise Exception("You are trying to use a field with the type: \"" + self.descriptor.type_name +
+                                "\". It is defined in different scope as where you are using it. But the scope of "
+                                "definition includes template parameters for repeated, string or byte fields. It "
+                                "is there for not possible to define the field where you are using it as we do not "
+                                "know the template value. Try defining the field in the main scope or the one you "
+                                "are using it in.")
+
     def render(self, filename, jinja_environment):
         template = jinja_environment.get_template(filename)
         rendered_str = template.render(field=self, environment=jinja_environment)
@@ -347,16 +358,9 @@ class FieldEnum(Field):
             type_name = type_name.replace(".", "::")
         else:
             scopes = self.get_reduced_scope()
+            self.check_scope_templates(scopes)
             type_name = ""
             for scope in scopes:
-                if scope["templates"]:
-                    raise Exception("You are trying to use a field with the type: \"" + self.descriptor.type_name +
-                                    "\". It is defined in different scope as where you are using it. But the scope of "
-                                    "definition includes template parameters for repeated, string or byte fields. It "
-                                    "is there for not possible to define the field where you are using it as we do not "
-                                    "know the template value. Try defining the field in the main scope or the one you "
-                                    "are using it in.")
-
                 type_name += scope["name"] + "::"
             # Remove the last ::
             type_name = type_name[:-2]
@@ -415,6 +419,7 @@ class FieldMessage(Field):
             type_name = type_name.replace(".", "::")
         else:
             scopes = self.get_reduced_scope()
+            self.check_scope_templates(scopes[:-1])
             type_name = ""
             for scope in scopes:
                 type_name += scope["name"] + "::"
-- 
2.43.0


From 19e03b28987a489ae96e37c570f947bd744c0d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:33 +0000
Subject: [PATCH 22/33] fix: find the definition of a field type from the
 global scope

---
 generator/EmbeddedProto/Field.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index 813a52a..622c1ab 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -145,6 +145,17 @@ class Field:
         reduced_scope = def_scope[start_index:]
         return reduced_scope
 
+    # Get the name of the definition as used in the code. Start from the global scope such that an other definition with
+    # the same name, closer by, can not be found instead. Only in the scope of a message with template parameters this
+    # is not possible.
+    def get_scoped_name(self):
+        scopes = self.definition.scope.get()
+        prefix = "::"
+        if any(scope["templates"] for scope in scopes[:-1]):
+            scopes = self.get_reduced_scope()
+            prefix = ""
+        return prefix + "::".join(scope["name"] for scope in scopes)
+
     # Types defined in the scope of a message with template parameters can only be used in that same scope.
     def check_scope_templates(self, scopes):
         for scope in scopes:
@@ -359,11 +370,7 @@ class FieldEnum(Field):
         else:
             scopes = self.get_reduced_scope()
             self.check_scope_templates(scopes)
-            type_name = ""
-            for scope in scopes:
-                type_name += scope["name"] + "::"
-            # Remove the last ::
-            type_name = type_name[:-2]
+            type_name = self.get_scoped_name()
 
         return type_name
 
@@ -420,11 +427,7 @@ class FieldMessage(Field):
         else:
             scopes = self.get_reduced_scope()
             self.check_scope_templates(scopes[:-1])
-            type_name = ""
-            for scope in scopes:
-                type_name += scope["name"] + "::"
-            # Remove the last ::
-            type_name = type_name[:-2]
+            type_name = self.get_scoped_name()
 
             tmpl_param = self.get_template_parameters()
             if tmpl_param:
-- 
2.43.0


From 4e9b879eb839752f4325233727721a76bbe2972c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:55 +0000
Subject: [PATCH 23/33] fix: refuse a nested message with a field of the type
 of an enclosing message

---
 generator/EmbeddedProto/ProtoFile.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index 254d2e8..08f8189 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -56,6 +56,10 @@ def toposort_add_msg(msg, namespace, dependency_data):
         dependency_data[full_enum_type] = {local_namespace}
 
     for f in msg.field:
+        # A nested message is part of the messages around it, it can not hold one of these in turn.
+        if (FieldDescriptorProto.TYPE_MESSAGE == f.type) and (namespace + ".").startswith(f.type_name + "."):
+            raise CircularDependencyError({local_namespace: {f.type_name}})
+
         if ((FieldDescriptorProto.TYPE_MESSAGE == f.type) or (FieldDescriptorProto.TYPE_ENUM == f.type)) \
                 and (not f.type_name.startswith(local_namespace + ".")):
             dependencies.add(f.type_name)
@@ -101,10 +105,10 @@ class ProtoFile:
         if self.descriptor.package:
             toposort_namespace = "." + self.descriptor.package
 
-        for msg in self.descriptor.message_type:
-            dependency_data = toposort_add_msg(msg, toposort_namespace, dependency_data)
-
         try:
+            for msg in self.descriptor.message_type:
+                dependency_data = toposort_add_msg(msg, toposort_namespace, dependency_data)
+
             # Sort the message in the order they should appear in the code.
             message_order = toposort_flatten(dependency_data)
 
-- 
2.43.0


From cb7f937fbf8d89d8df5000063b8684d548414981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:04 +0000
Subject: [PATCH 24/33] fix: refuse recursive fields in a oneof and recursive
 optional fields

---
 generator/EmbeddedProto/Field.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index 622c1ab..abd2adf 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -69,6 +69,11 @@ class Field:
         # complex recursive inclusions which we can not solve like this.
         parent_msg_type = "." + parent_msg.scope.get_scope_str().replace("::", ".")
         if proto_descriptor.type_name == parent_msg_type:
+            if oneof or proto_descriptor.proto3_optional:
+                # There is no dummy which can take the place of this field.
+                raise Exception("Recursive inclusion of " + proto_descriptor.type_name + " with the field: '"
+                                + proto_descriptor.name + "'. Embedded Proto is not able to support this in a oneof or "
+                                "for an optional field. Please remove this field.")
             result = FieldErrorRecursive(proto_descriptor, parent_msg, oneof)
         # Now continue constructing the normal fields.
         elif (FieldDescriptorProto.LABEL_REPEATED == proto_descriptor.label) and not already_nested:
-- 
2.43.0


From fd0962d36380df4d8d171f5f51e03d7d6d622251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:19 +0000
Subject: [PATCH 25/33] fix: a constexpr function can not return void in C++11

---
 src/Defines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Defines.h b/src/Defines.h
index 25b5ee5..5fc84ee 100644
--- a/src/Defines.h
+++ b/src/Defines.h
@@ -61,7 +61,7 @@ namespace EmbeddedProto
 #elif __cplusplus >= 201103L // C++11
 
   template<class T>
-  constexpr void destroy_at(T* p) 
+  inline void destroy_at(T* p) 
   {
     p->~T(); 
   }
-- 
2.43.0


From 0555fb0a41d69a90bab85ed276600d44eee08096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:19 +0000
Subject: [PATCH 26/33] fix: destroy a message in a oneof without naming its
 type

---
 generator/EmbeddedProto/templates/FieldMsg_GetSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/templates/FieldMsg_GetSet.h b/generator/EmbeddedProto/templates/FieldMsg_GetSet.h
index 3ae06fa..9fc4fc9 100644
--- a/generator/EmbeddedProto/templates/FieldMsg_GetSet.h
+++ b/generator/EmbeddedProto/templates/FieldMsg_GetSet.h
@@ -38,7 +38,7 @@ inline void clear_{{field.get_name()}}()
   if(FieldNumber::{{field.get_variable_id_name()}} == {{field.get_which_oneof()}})
   {
     {{field.get_which_oneof()}} = FieldNumber::NOT_SET;
-    {{field.get_variable_name()}}.~{{field.get_short_type()}}();
+    ::EmbeddedProto::destroy_at(&{{field.get_variable_name()}});
   }
 }
 inline void set_{{field.get_name()}}(const {{field.get_type()}}& value)
-- 
2.43.0


From ef23011813d94debb925b84a74c81c4551411118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:11 +0000
Subject: [PATCH 27/33] fix: use typename for types inside of a sibling in a
 message with template parameters

---
 generator/EmbeddedProto/Field.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index abd2adf..7c19343 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -159,6 +159,10 @@ class Field:
         if any(scope["templates"] for scope in scopes[:-1]):
             scopes = self.get_reduced_scope()
             prefix = ""
+            if 1 < len(scopes):
+                # A name inside of a sibling depends on the template parameters of the message around both.
+                last = ("template " if scopes[-1]["templates"] else "") + scopes[-1]["name"]
+                return "typename " + "::".join([scope["name"] for scope in scopes[:-1]] + [last])
         return prefix + "::".join(scope["name"] for scope in scopes)
 
     # Types defined in the scope of a message with template parameters can only be used in that same scope.
-- 
2.43.0


From c0ad5d61210ec24777e735fca52fda075dea8305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:12 +0000
Subject: [PATCH 28/33] fix: refuse proto2 files for which protoc leaves the
 syntax empty

---
 generator/EmbeddedProto/ProtoFile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index 08f8189..de41995 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -77,7 +77,8 @@ class ProtoFile:
     def __init__(self, proto_descriptor):
         self.descriptor = proto_descriptor
 
-        if "proto2" == proto_descriptor.syntax:
+        # For proto2 protoc leaves the syntax empty. The google descriptor file is proto2 but can be included by the user.
+        if proto_descriptor.syntax in ("", "proto2") and "google/protobuf/descriptor.proto" not in proto_descriptor.name:
             raise Exception(proto_descriptor.name + ": Sorry, proto2 is not supported, please use proto3.")
 
         # These file names are the ones used for creating the C++ files.
-- 
2.43.0


From 8c2c40aca1c3d5012cb42fd08c5b82e67116c025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:42 +0000
Subject: [PATCH 29/33] fix: give the generated header of every file its own
 include guard

Files whose names differ only in case or in which of '/', '_', '-' and '.' they
use shared one include guard, so including both dropped the second.
---
 generator/EmbeddedProto/ProtoFile.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/generator/EmbeddedProto/ProtoFile.py b/generator/EmbeddedProto/ProtoFile.py
index de41995..d4602d8 100644
--- a/generator/EmbeddedProto/ProtoFile.py
+++ b/generator/EmbeddedProto/ProtoFile.py
@@ -153,9 +153,10 @@ class ProtoFile:
         return result
 
     def get_header_guard(self):
-        # The file name can hold characters which are not allowed in the name of a macro.
-        header_guard = re.sub("[^A-Za-z0-9_]", "_", self.filename_with_folder).upper()
-        return "_" + header_guard if header_guard[0].isdigit() else header_guard
+        # Escape the characters which are not allowed in the name of a macro, such that no two files share a guard.
+        escaped_filename = re.sub(rb"[^A-Za-z0-9]", lambda c: b"_%02X" % ord(c.group()),
+                                  self.filename_with_folder.encode("utf-8"))
+        return "EMBEDDED_PROTO_" + escaped_filename.decode("ascii")
 
     # Obtain a dictionary with references to all nested enums and messages
     def get_all_nested_types(self):
-- 
2.43.0


From b37a404268792d3719b7d6fa3b49d2443c555362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:25 +0000
Subject: [PATCH 30/33] fix: keep the value when a oneof scalar is set from
 another member of the oneof

---
 generator/EmbeddedProto/templates/FieldBasic_GetSet.h | 8 ++++++--
 generator/EmbeddedProto/templates/FieldEnum_GetSet.h  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/generator/EmbeddedProto/templates/FieldBasic_GetSet.h b/generator/EmbeddedProto/templates/FieldBasic_GetSet.h
index acdf087..1379a84 100644
--- a/generator/EmbeddedProto/templates/FieldBasic_GetSet.h
+++ b/generator/EmbeddedProto/templates/FieldBasic_GetSet.h
@@ -43,19 +43,23 @@ inline void clear_{{field.get_name()}}()
 }
 inline void set_{{field.get_name()}}(const {{field.get_cstdint_type()}}& value)
 {
+  // The value can refer to the current member of this oneof, copy it before that member is replaced.
+  const {{field.get_cstdint_type()}} new_value = value;
   if(FieldNumber::{{field.get_variable_id_name()}} != {{field.get_which_oneof()}})
   {
     init_{{field.get_oneof_name()}}(FieldNumber::{{field.get_variable_id_name()}});
   }
-  {{field.get_variable_name()}} = value;
+  {{field.get_variable_name()}} = new_value;
 }
 inline void set_{{field.get_name()}}(const {{field.get_cstdint_type()}}&& value)
 {
+  // The value can refer to the current member of this oneof, copy it before that member is replaced.
+  const {{field.get_cstdint_type()}} new_value = value;
   if(FieldNumber::{{field.get_variable_id_name()}} != {{field.get_which_oneof()}})
   {
     init_{{field.get_oneof_name()}}(FieldNumber::{{field.get_variable_id_name()}});
   }
-  {{field.get_variable_name()}} = value;
+  {{field.get_variable_name()}} = new_value;
 }
 {% elif field.optional %}
 inline bool has_{{field.get_name()}}() const
diff --git a/generator/EmbeddedProto/templates/FieldEnum_GetSet.h b/generator/EmbeddedProto/templates/FieldEnum_GetSet.h
index cf693e5..c6061a5 100644
--- a/generator/EmbeddedProto/templates/FieldEnum_GetSet.h
+++ b/generator/EmbeddedProto/templates/FieldEnum_GetSet.h
@@ -43,19 +43,23 @@ inline void clear_{{field.get_name()}}()
 }
 inline void set_{{field.get_name()}}(const {{field.get_type_as_defined()}}& value)
 {
+  // The value can refer to the current member of this oneof, copy it before that member is replaced.
+  const {{field.get_type_as_defined()}} new_value = value;
   if(FieldNumber::{{field.get_variable_id_name()}} != {{field.get_which_oneof()}})
   {
     init_{{field.get_oneof_name()}}(FieldNumber::{{field.get_variable_id_name()}});
   }
-  {{field.get_variable_name()}} = value;
+  {{field.get_variable_name()}} = new_value;
 }
 inline void set_{{field.get_name()}}(const {{field.get_type_as_defined()}}&& value)
 {
+  // The value can refer to the current member of this oneof, copy it before that member is replaced.
+  const {{field.get_type_as_defined()}} new_value = value;
   if(FieldNumber::{{field.get_variable_id_name()}} != {{field.get_which_oneof()}})
   {
     init_{{field.get_oneof_name()}}(FieldNumber::{{field.get_variable_id_name()}});
   }
-  {{field.get_variable_name()}} = value;
+  {{field.get_variable_name()}} = new_value;
 }
 {% elif field.optional %}
 inline bool has_{{field.get_name()}}() const
-- 
2.43.0


From ece6014f9b25efa06dacd0725eac4ebce82b86fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:25 +0000
Subject: [PATCH 31/33] fix: transfer the bits of float and double without
 breaking the aliasing rules

With optimisation g++ could read the value before it was stored, such that a
received float was zero.
---
 src/WireFormatter.h | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/WireFormatter.h b/src/WireFormatter.h
index 9f2b16b..db54121 100644
--- a/src/WireFormatter.h
+++ b/src/WireFormatter.h
@@ -37,6 +37,7 @@
 #include "Errors.h"
 
 #include <cstdint>
+#include <cstring>
 #include <math.h> 
 #include <type_traits>
 #include <limits>
@@ -172,19 +173,19 @@ namespace EmbeddedProto
       //! Serialize a 32bit real value without tag.
       static Error SerialzieFloatNoTag(const float value, WriteBufferInterface& buffer)
       {
-        // Cast the type to void and to a 32 fixed number
-        const auto* pVoid = static_cast<const void*>(&value);
-        const auto* fixed = static_cast<const uint32_t*>(pVoid);
-        return SerializeFixedNoTag(*fixed, buffer);
+        // Take over the bits of the value in a 32 bit fixed number.
+        uint32_t fixed = 0;
+        memcpy(&fixed, &value, sizeof(value));
+        return SerializeFixedNoTag(fixed, buffer);
       }
 
       //! Serialize a 64bit real value without tag.
       static Error SerialzieDoubleNoTag(const double value, WriteBufferInterface& buffer)
       {
-        // Cast the type to void and to a 64 fixed number
-        const auto* pVoid = static_cast<const void*>(&value);
-        const auto* fixed = static_cast<const uint64_t*>(pVoid);
-        return SerializeFixedNoTag(*fixed, buffer);
+        // Take over the bits of the value in a 64 bit fixed number.
+        uint64_t fixed = 0;
+        memcpy(&fixed, &value, sizeof(value));
+        return SerializeFixedNoTag(fixed, buffer);
       }
       /** @} **/
 
@@ -479,10 +480,8 @@ namespace EmbeddedProto
         Error result = DeserializeFixed(buffer, temp_value);
         if(Error::NO_ERRORS == result) 
         {
-          // Cast from unsigned int to a float.
-          const auto* pVoid = static_cast<const void*>(&temp_value);
-          const auto* pFloat = static_cast<const float*>(pVoid);
-          value = *pFloat;
+          // Take over the bits of the unsigned int in the float.
+          memcpy(&value, &temp_value, sizeof(value));
         }
         return result;
       }
@@ -493,10 +492,8 @@ namespace EmbeddedProto
         Error result = DeserializeFixed(buffer, temp_value);
         if(Error::NO_ERRORS == result) 
         {
-          // Cast from unsigned int to a double.
-          const auto* pVoid = static_cast<const void*>(&temp_value);
-          const auto* pDouble = static_cast<const double*>(pVoid);
-          value = *pDouble;
+          // Take over the bits of the unsigned int in the double.
+          memcpy(&value, &temp_value, sizeof(value));
         }
         return result;
       }
-- 
2.43.0


From 6d138afa0cb981e883c3fe07976bdf9dbf3582ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:57 +0000
Subject: [PATCH 32/33] fix: refer to EmbeddedProto and std from the global
 scope in generated code

Such that these names can be used in a package or for a message.
---
 generator/EmbeddedProto/Field.py              | 30 +++++++++----------
 .../templates/FieldBasic_Serialize.h          |  2 +-
 .../EmbeddedProto/templates/TypeDefMsg.h      |  2 +-
 3 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/generator/EmbeddedProto/Field.py b/generator/EmbeddedProto/Field.py
index 7c19343..ce9386a 100644
--- a/generator/EmbeddedProto/Field.py
+++ b/generator/EmbeddedProto/Field.py
@@ -202,19 +202,19 @@ class FieldBasic(Field):
                              FieldDescriptorProto.TYPE_SINT64:   "0"}
 
     # A dictionary to convert the protobuf wire type into an Embedded Proto C++ type.
-    type_to_cpp_type = {FieldDescriptorProto.TYPE_DOUBLE:   "EmbeddedProto::doublefixed",
-                        FieldDescriptorProto.TYPE_FLOAT:    "EmbeddedProto::floatfixed",
-                        FieldDescriptorProto.TYPE_INT64:    "EmbeddedProto::int64",
-                        FieldDescriptorProto.TYPE_UINT64:   "EmbeddedProto::uint64",
-                        FieldDescriptorProto.TYPE_INT32:    "EmbeddedProto::int32",
-                        FieldDescriptorProto.TYPE_FIXED64:  "EmbeddedProto::fixed64",
-                        FieldDescriptorProto.TYPE_FIXED32:  "EmbeddedProto::fixed32",
-                        FieldDescriptorProto.TYPE_BOOL:     "EmbeddedProto::boolean",
-                        FieldDescriptorProto.TYPE_UINT32:   "EmbeddedProto::uint32",
-                        FieldDescriptorProto.TYPE_SFIXED32: "EmbeddedProto::sfixed32",
-                        FieldDescriptorProto.TYPE_SFIXED64: "EmbeddedProto::sfixed64",
-                        FieldDescriptorProto.TYPE_SINT32:   "EmbeddedProto::sint32",
-                        FieldDescriptorProto.TYPE_SINT64:   "EmbeddedProto::sint64"}
+    type_to_cpp_type = {FieldDescriptorProto.TYPE_DOUBLE:   "::EmbeddedProto::doublefixed",
+                        FieldDescriptorProto.TYPE_FLOAT:    "::EmbeddedProto::floatfixed",
+                        FieldDescriptorProto.TYPE_INT64:    "::EmbeddedProto::int64",
+                        FieldDescriptorProto.TYPE_UINT64:   "::EmbeddedProto::uint64",
+                        FieldDescriptorProto.TYPE_INT32:    "::EmbeddedProto::int32",
+                        FieldDescriptorProto.TYPE_FIXED64:  "::EmbeddedProto::fixed64",
+                        FieldDescriptorProto.TYPE_FIXED32:  "::EmbeddedProto::fixed32",
+                        FieldDescriptorProto.TYPE_BOOL:     "::EmbeddedProto::boolean",
+                        FieldDescriptorProto.TYPE_UINT32:   "::EmbeddedProto::uint32",
+                        FieldDescriptorProto.TYPE_SFIXED32: "::EmbeddedProto::sfixed32",
+                        FieldDescriptorProto.TYPE_SFIXED64: "::EmbeddedProto::sfixed64",
+                        FieldDescriptorProto.TYPE_SINT32:   "::EmbeddedProto::sint32",
+                        FieldDescriptorProto.TYPE_SINT64:   "::EmbeddedProto::sint64"}
 
     # A dictionary to convert the protobuf wire type into a C++ type.
     type_to_cstdint = {FieldDescriptorProto.TYPE_DOUBLE:   "double",
@@ -384,10 +384,10 @@ class FieldEnum(Field):
         return type_name
 
     def get_type(self):
-        return "EmbeddedProto::enumeration<" + self.get_type_as_defined() + ">"
+        return "::EmbeddedProto::enumeration<" + self.get_type_as_defined() + ">"
 
     def get_short_type(self):
-        return "EmbeddedProto::enumeration<" + self.get_type_as_defined().split("::")[-1] + ">"
+        return "::EmbeddedProto::enumeration<" + self.get_type_as_defined().split("::")[-1] + ">"
 
     def get_default_value(self):
         return "static_cast<" + self.get_type_as_defined() + ">(0)"
diff --git a/generator/EmbeddedProto/templates/FieldBasic_Serialize.h b/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
index e174509..af9132e 100644
--- a/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
+++ b/generator/EmbeddedProto/templates/FieldBasic_Serialize.h
@@ -30,7 +30,7 @@ Postal address:
 {% if (field.optional or (field.oneof is not none)) %}
 if(has_{{field.get_name()}}() && (::EmbeddedProto::Error::NO_ERRORS == return_value))
 {% elif field.get_cstdint_type() in ("float", "double") %}
-if((({{field.get_default_value()}} != {{field.get_variable_name()}}.get()) || std::signbit({{field.get_variable_name()}}.get())) && (::EmbeddedProto::Error::NO_ERRORS == return_value))
+if((({{field.get_default_value()}} != {{field.get_variable_name()}}.get()) || ::std::signbit({{field.get_variable_name()}}.get())) && (::EmbeddedProto::Error::NO_ERRORS == return_value))
 {% else %}
 if(({{field.get_default_value()}} != {{field.get_variable_name()}}.get()) && (::EmbeddedProto::Error::NO_ERRORS == return_value))
 {% endif %}
diff --git a/generator/EmbeddedProto/templates/TypeDefMsg.h b/generator/EmbeddedProto/templates/TypeDefMsg.h
index a46423d..b68b4c4 100644
--- a/generator/EmbeddedProto/templates/TypeDefMsg.h
+++ b/generator/EmbeddedProto/templates/TypeDefMsg.h
@@ -376,7 +376,7 @@ class {{ typedef.get_name() }} final: public ::EmbeddedProto::MessageInterface
         using TYPE = uint32_t;
 
         // How many bits are there in the presence type.
-        static constexpr uint32_t N_BITS = std::numeric_limits<TYPE>::digits;
+        static constexpr uint32_t N_BITS = ::std::numeric_limits<TYPE>::digits;
 
         // How many variables of TYPE do we need to bit mask all presence fields.
         static constexpr uint32_t SIZE = (N_FIELDS / N_BITS) + ((N_FIELDS % N_BITS) > 0 ? 1 : 0);
-- 
2.43.0


From 64a1b21ac4a210134b6f7033121562b5fd7fb957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:21 +0000
Subject: [PATCH 33/33] fix: destroy string and bytes members of a oneof like
 the other members

With a message called FieldString around it the destructor was not found.
---
 generator/EmbeddedProto/templates/FieldBytes_GetSet.h  | 2 +-
 generator/EmbeddedProto/templates/FieldString_GetSet.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/generator/EmbeddedProto/templates/FieldBytes_GetSet.h b/generator/EmbeddedProto/templates/FieldBytes_GetSet.h
index 59c155e..e5ced29 100644
--- a/generator/EmbeddedProto/templates/FieldBytes_GetSet.h
+++ b/generator/EmbeddedProto/templates/FieldBytes_GetSet.h
@@ -38,7 +38,7 @@ inline void clear_{{field.get_name()}}()
   if(FieldNumber::{{field.get_variable_id_name()}} == {{field.get_which_oneof()}})
   {
     {{field.get_which_oneof()}} = FieldNumber::NOT_SET;
-    {{field.get_variable_name()}}.~{{field.get_short_type()}}();
+    ::EmbeddedProto::destroy_at(&{{field.get_variable_name()}});
   }
 }
 inline {{field.get_type()}}& mutable_{{field.get_name()}}()
diff --git a/generator/EmbeddedProto/templates/FieldString_GetSet.h b/generator/EmbeddedProto/templates/FieldString_GetSet.h
index 0d3c3fc..8a9a126 100644
--- a/generator/EmbeddedProto/templates/FieldString_GetSet.h
+++ b/generator/EmbeddedProto/templates/FieldString_GetSet.h
@@ -38,7 +38,7 @@ inline void clear_{{field.get_name()}}()
   if(FieldNumber::{{field.get_variable_id_name()}} == {{field.get_which_oneof()}})
   {
     {{field.get_which_oneof()}} = FieldNumber::NOT_SET;
-    {{field.get_variable_name()}}.~{{field.get_short_type()}}();
+    ::EmbeddedProto::destroy_at(&{{field.get_variable_name()}});
   }
 }
 inline {{field.get_type()}}& mutable_{{field.get_name()}}()
-- 
2.43.0

