From 6c587894f06b9d6430995822106e49b774a706f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:40 +0000
Subject: [PATCH 01/79] fix: raise if reading a JSON file fails part-way
 instead of returning the data read so far

---
 src/libawkward/io/json.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/io/json.cpp b/src/libawkward/io/json.cpp
index cc10337..14c5af0 100644
--- a/src/libawkward/io/json.cpp
+++ b/src/libawkward/io/json.cpp
@@ -844,6 +844,14 @@ namespace awkward {
                     nan_string,
                     infinity_string,
                     minus_infinity_string);
-    return do_parse(handler, reader, stream);
+    ContentPtr out = do_parse(handler, reader, stream);
+    // the stream reports a failed read as the end of the file
+    if (ferror(source) != 0) {
+      throw std::runtime_error(
+        std::string("JSON File could not be fully read (I/O error after char ")
+        + std::to_string(stream.Tell()) + std::string(")")
+        + FILENAME(__LINE__));
+    }
+    return out;
   }
 }
-- 
2.43.0


From 501dc9081d9c4bcad59024dc55dd08a1d7c1c724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:40 +0000
Subject: [PATCH 02/79] fix: reject null bytes in JSON files instead of
 ignoring everything after them

---
 src/libawkward/io/json.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libawkward/io/json.cpp b/src/libawkward/io/json.cpp
index 14c5af0..c0cc0d5 100644
--- a/src/libawkward/io/json.cpp
+++ b/src/libawkward/io/json.cpp
@@ -852,6 +852,15 @@ namespace awkward {
         + std::to_string(stream.Tell()) + std::string(")")
         + FILENAME(__LINE__));
     }
+    // the parser stops at a null byte, which is the end of the stream only if
+    // the stream can't be advanced any further
+    size_t position = stream.Tell();
+    stream.Take();
+    if (stream.Tell() != position) {
+      throw std::invalid_argument(
+        std::string("JSON File error at char ") + std::to_string(position)
+        + std::string(": null byte") + FILENAME(__LINE__));
+    }
     return out;
   }
 }
-- 
2.43.0


From fc48b8fe9ecfbbff49459a875813b6ac64e0eabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:40 +0000
Subject: [PATCH 03/79] fix: raise if writing a JSON file fails instead of
 returning normally

---
 src/python/content.cpp   | 8 +++++++-
 src/python/partition.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/python/content.cpp b/src/python/content.cpp
index dc4da47..c285784 100644
--- a/src/python/content.cpp
+++ b/src/python/content.cpp
@@ -768,7 +768,13 @@ tojson_file(const T& self,
     fclose(file);
     throw;
   }
-  fclose(file);
+  bool failed = (ferror(file) != 0);
+  if (fclose(file) != 0  ||  failed) {
+    throw std::runtime_error(
+      std::string("file \"") + destination
+      + std::string("\" could not be completely written")
+      + FILENAME(__LINE__));
+  }
 }
 
 template <typename T>
diff --git a/src/python/partition.cpp b/src/python/partition.cpp
index f0e01ae..9600d72 100644
--- a/src/python/partition.cpp
+++ b/src/python/partition.cpp
@@ -49,7 +49,13 @@ tojson_file(const T& self,
     fclose(file);
     throw;
   }
-  fclose(file);
+  bool failed = (ferror(file) != 0);
+  if (fclose(file) != 0  ||  failed) {
+    throw std::runtime_error(
+      std::string("file \"") + destination
+      + std::string("\" could not be completely written")
+      + FILENAME(__LINE__));
+  }
 }
 
 template <typename T>
-- 
2.43.0


From bf45786c9c3bf9b92efdfb0d2191e1730f29d6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:14 +0000
Subject: [PATCH 04/79] fix: raise on JSON that ends inside of a top-level
 string, number, or literal

---
 src/libawkward/io/json.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libawkward/io/json.cpp b/src/libawkward/io/json.cpp
index c0cc0d5..23adcbe 100644
--- a/src/libawkward/io/json.cpp
+++ b/src/libawkward/io/json.cpp
@@ -802,6 +802,12 @@ namespace awkward {
           + stream.Peek() + std::string("\'")
           + FILENAME(__LINE__));
       }
+      else if (reader.GetParseErrorCode() != rj::kParseErrorDocumentEmpty) {
+        // not just trailing whitespace: a string, number, or literal was cut short
+        throw std::invalid_argument(
+            std::string("incomplete JSON object at the end of the stream")
+            + FILENAME(__LINE__));
+      }
     }
 
     ContentPtr obj = handler.snapshot();
-- 
2.43.0


From 8d0635005213a676dcff0acf86582ef3cf970c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:33 +0000
Subject: [PATCH 05/79] fix: trim the first record array's columns when merging
 records

RecordArray::mergemany trimmed every array's columns to the record array's
length except its own (the trimmed column was computed and not used), so
concatenating records whose columns are longer than the record array mixed up
the values.
---
 src/libawkward/array/RecordArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 571f0d4..4eae122 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1274,7 +1274,7 @@ namespace awkward {
     std::vector<ContentPtrVec> for_each_field;
     for (auto field : contents_) {
       ContentPtr trimmed = field.get()->getitem_range_nowrap(0, length_);
-      for_each_field.push_back(ContentPtrVec({ field }));
+      for_each_field.push_back(ContentPtrVec({ trimmed }));
     }
 
     if (istuple()) {
-- 
2.43.0


From d0ae64f3ae33d347883fe3a6278b6cd974dda624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:13 +0000
Subject: [PATCH 06/79] fix: look inside lazy arrays before choosing how to
 merge them

merging_strategy put every VirtualArray into the 'head' of arrays that can be
merged directly, even if it materializes to an indexed, option-type or union
array; concatenating such a lazy array to an eager one raised an error.
---
 src/libawkward/Content.cpp            | 9 ++++++---
 src/libawkward/array/IndexedArray.cpp | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index 39a6e99..e94ce2f 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -941,6 +941,9 @@ namespace awkward {
     size_t i = 0;
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
+      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+        other = raw->array();
+      }
       if (dynamic_cast<IndexedArray32*>(other.get())  ||
           dynamic_cast<IndexedArrayU32*>(other.get())  ||
           dynamic_cast<IndexedArray64*>(other.get())  ||
@@ -954,9 +957,6 @@ namespace awkward {
           dynamic_cast<UnionArray8_64*>(other.get())) {
         break;
       }
-      else if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
-        head.push_back(raw->array());
-      }
       else {
         head.push_back(other);
       }
@@ -964,6 +964,9 @@ namespace awkward {
 
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
+      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+        other = raw->array();
+      }
       tail.push_back(other);
     }
 
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index b8594a9..31d59dd 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -1799,14 +1799,14 @@ namespace awkward {
     size_t i = 0;
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
+      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+        other = raw->array();
+      }
       if (dynamic_cast<UnionArray8_32*>(other.get())  ||
           dynamic_cast<UnionArray8_U32*>(other.get())  ||
           dynamic_cast<UnionArray8_64*>(other.get())) {
         break;
       }
-      else if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
-        head.push_back(raw->array());
-      }
       else {
         head.push_back(other);
       }
@@ -1814,6 +1814,9 @@ namespace awkward {
 
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
+      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+        other = raw->array();
+      }
       tail.push_back(other);
     }
 
-- 
2.43.0


From f3566cc359bfedf9296a017cc606571bb4b85827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:13 +0000
Subject: [PATCH 07/79] fix: keep the option type when merging option and
 non-option indexed arrays

IndexedArray::mergemany let the last array decide whether the merged array is
option-type, so that concatenating an option-type array with an IndexedArray
gave an invalid array with negative index.
---
 src/libawkward/array/IndexedArray.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index 31d59dd..ccdf670 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -1861,7 +1861,6 @@ namespace awkward {
       }
 
       if (IndexedArray32* raw = dynamic_cast<IndexedArray32*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         Index32 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<int32_t, int64_t>(
@@ -1876,7 +1875,6 @@ namespace awkward {
         length_so_far += array.get()->length();
       }
       else if (IndexedArrayU32* raw = dynamic_cast<IndexedArrayU32*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         IndexU32 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<uint32_t, int64_t>(
@@ -1891,7 +1889,6 @@ namespace awkward {
         length_so_far += array.get()->length();
       }
       else if (IndexedArray64* raw = dynamic_cast<IndexedArray64*>(array.get())) {
-        is_option = false;
         contents.push_back(raw->content());
         Index64 array_index = raw->index();
         struct Error err = kernel::IndexedArray_fill<int64_t, int64_t>(
-- 
2.43.0


From ffe28920ad80ef7274ac4c778b712241bc239acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:03 +0000
Subject: [PATCH 08/79] fix: ak.run_lengths of lazy arrays

It raised NotImplementedError for every VirtualArray.
---
 src/awkward/operations/structure.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 195463b..f1419a0 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -362,10 +362,17 @@ def run_lengths(array, highlevel=True, behavior=None):
                 nextoffsets = nplike.searchsorted(full_positions, offsets, side="left")
             return nextcontent, nextoffsets
 
+    def project(layout):
+        while isinstance(layout, ak._util.indexedtypes + ak._util.virtualtypes):
+            if isinstance(layout, ak._util.virtualtypes):
+                layout = layout.array
+            else:
+                layout = layout.project()
+        return layout
+
     def getfunction(layout):
         if layout.branch_depth == (False, 1):
-            if isinstance(layout, ak._util.indexedtypes):
-                layout = layout.project()
+            layout = project(layout)
 
             if (
                 layout.parameter("__array__") == "string"
@@ -385,8 +392,7 @@ def run_lengths(array, highlevel=True, behavior=None):
             return lambda: ak.layout.NumpyArray(nextcontent)
 
         elif layout.branch_depth == (False, 2):
-            if isinstance(layout, ak._util.indexedtypes):
-                layout = layout.project()
+            layout = project(layout)
 
             if not isinstance(layout, ak._util.listtypes):
                 raise NotImplementedError(
@@ -395,16 +401,16 @@ def run_lengths(array, highlevel=True, behavior=None):
                     + ak._util.exception_suffix(__file__)
                 )
 
+            listcontent = project(layout.content)
             if (
-                layout.content.parameter("__array__") == "string"
-                or layout.content.parameter("__array__") == "bytestring"
+                listcontent.parameter("__array__") == "string"
+                or listcontent.parameter("__array__") == "bytestring"
             ):
                 listoffsetarray = layout.toListOffsetArray64(False)
                 offsets = nplike.asarray(listoffsetarray.offsets)
                 content = listoffsetarray.content[offsets[0] : offsets[-1]]
 
-                if isinstance(content, ak._util.indexedtypes):
-                    content = content.project()
+                content = project(content)
 
                 nextcontent, nextoffsets = lengths_of(
                     ak.highlevel.Array(content), offsets - offsets[0]
@@ -417,8 +423,7 @@ def run_lengths(array, highlevel=True, behavior=None):
             offsets = nplike.asarray(listoffsetarray.offsets)
             content = listoffsetarray.content[offsets[0] : offsets[-1]]
 
-            if isinstance(content, ak._util.indexedtypes):
-                content = content.project()
+            content = project(content)
 
             if not isinstance(content, (ak.layout.NumpyArray, ak.layout.EmptyArray)):
                 raise NotImplementedError(
-- 
2.43.0


From 2de4ca2f9fefffccb6570a4694b2adae93085c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:00 +0000
Subject: [PATCH 09/79] fix: deep copy of a sliced NumpyArray

The copied buffer starts at the array's first item, but the copy kept the
original's byte offset, so it read past the end of the new buffer.
---
 src/libawkward/array/NumpyArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 1dc0ada..8efc9ae 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -1152,6 +1152,7 @@ namespace awkward {
           reinterpret_cast<uint8_t*>(data()),
           bytelength());
         util::handle_error(err, classname(), identities_.get());
+        byteoffset = 0;
       }
     }
     IdentitiesPtr identities = identities_;
-- 
2.43.0


From cdcb5da11590cc701782c349f0ba947dc0638cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:15 +0000
Subject: [PATCH 10/79] fix: ak.values_astype of multidimensional arrays
 converts all items

Only shape[0] items were converted; the rest of the buffer was uninitialized.
---
 src/libawkward/array/NumpyArray.cpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 8efc9ae..5f48d47 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -5103,9 +5103,11 @@ namespace awkward {
       ssize_t itemsize = util::dtype_to_itemsize(dtype);
       std::vector<ssize_t> shape = contiguous_self.shape();
       std::vector<ssize_t> strides;
+      int64_t numitems = 1;
       for (int64_t j = (int64_t)shape.size();  j > 0;  j--) {
         strides.insert(strides.begin(), itemsize);
         itemsize *= shape[(size_t)(j - 1)];
+        numitems *= (int64_t)shape[(size_t)(j - 1)];
       }
 
       IdentitiesPtr identities = contiguous_self.identities();
@@ -5116,47 +5118,47 @@ namespace awkward {
       switch (dtype_) {
       case util::dtype::boolean:
         ptr = as_type<bool>(reinterpret_cast<bool*>(contiguous_self.data()),
-                            contiguous_self.length(),
+                            numitems,
                             dtype);
         break;
       case util::dtype::int8:
         ptr = as_type<int8_t>(reinterpret_cast<int8_t*>(contiguous_self.data()),
-                              contiguous_self.length(),
+                              numitems,
                               dtype);
         break;
       case util::dtype::int16:
         ptr = as_type<int16_t>(reinterpret_cast<int16_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               numitems,
                                dtype);
         break;
       case util::dtype::int32:
         ptr = as_type<int32_t>(reinterpret_cast<int32_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               numitems,
                                dtype);
         break;
       case util::dtype::int64:
         ptr = as_type<int64_t>(reinterpret_cast<int64_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               numitems,
                                dtype);
         break;
       case util::dtype::uint8:
         ptr = as_type<uint8_t>(reinterpret_cast<uint8_t*>(contiguous_self.data()),
-                               contiguous_self.length(),
+                               numitems,
                                dtype);
         break;
       case util::dtype::uint16:
         ptr = as_type<uint16_t>(reinterpret_cast<uint16_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                numitems,
                                 dtype);
         break;
       case util::dtype::uint32:
         ptr = as_type<uint32_t>(reinterpret_cast<uint32_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                numitems,
                                 dtype);
         break;
       case util::dtype::uint64:
         ptr = as_type<uint64_t>(reinterpret_cast<uint64_t*>(contiguous_self.data()),
-                                contiguous_self.length(),
+                                numitems,
                                 dtype);
         break;
       case util::dtype::float16:
@@ -5166,12 +5168,12 @@ namespace awkward {
         break;
       case util::dtype::float32:
         ptr = as_type<float>(reinterpret_cast<float*>(contiguous_self.data()),
-                             contiguous_self.length(),
+                             numitems,
                              dtype);
         break;
       case util::dtype::float64:
         ptr = as_type<double>(reinterpret_cast<double*>(contiguous_self.data()),
-                              contiguous_self.length(),
+                              numitems,
                               dtype);
         break;
       case util::dtype::float128:
@@ -5181,12 +5183,12 @@ namespace awkward {
         break;
       case util::dtype::complex64:
         ptr = as_type<std::complex<float>>(reinterpret_cast<std::complex<float>*>(contiguous_self.data()),
-                                           contiguous_self.length(),
+                                           numitems,
                                            dtype);
         break;
       case util::dtype::complex128:
         ptr = as_type<std::complex<double>>(reinterpret_cast<std::complex<double>*>(contiguous_self.data()),
-                                            contiguous_self.length(),
+                                            numitems,
                                             dtype);
         break;
       case util::dtype::complex256:
-- 
2.43.0


From 8c502077800bbaf05d27e5b5243fc3c0d6b8e554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:22 +0000
Subject: [PATCH 11/79] fix: lazy slices of lazy arrays with a BitMaskedArray
 inside

Slicing an array turns the BitMaskedArrays in it into ByteMaskedArrays, but
only the outermost one was expected to change, so that using the slice of a
lazy array with such a nested form raised an error.
---
 src/libawkward/array/BitMaskedArray.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/libawkward/array/BitMaskedArray.cpp b/src/libawkward/array/BitMaskedArray.cpp
index e52a9ec..ee72ffe 100644
--- a/src/libawkward/array/BitMaskedArray.cpp
+++ b/src/libawkward/array/BitMaskedArray.cpp
@@ -210,6 +210,17 @@ namespace awkward {
               valid_when_ == t->valid_when()  &&
               lsb_order_ == t->lsb_order());
     }
+    else if (compatibility_check) {
+      // slicing a BitMaskedArray, at any level, turns it into a ByteMaskedArray
+      ByteMaskedForm* t = dynamic_cast<ByteMaskedForm*>(other.get());
+      return (t != nullptr  &&
+              content_.get()->equal(t->content(),
+                                    check_identities,
+                                    check_parameters,
+                                    check_form_key,
+                                    compatibility_check)  &&
+              valid_when_ == t->valid_when());
+    }
     else {
       return false;
     }
-- 
2.43.0


From c6e127675c926868ac14b5110771e38227124d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:33 +0000
Subject: [PATCH 12/79] fix: ak.to_numpy(..., allow_missing=False) of lazy
 arrays

The argument was ignored for VirtualArrays.
---
 src/awkward/operations/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index c1f2913..0fd22e2 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -246,7 +246,7 @@ def to_numpy(array, allow_missing=True):
             return numpy.concatenate(tocat)
 
     elif isinstance(array, ak._util.virtualtypes):
-        return to_numpy(array.array, allow_missing=True)
+        return to_numpy(array.array, allow_missing=allow_missing)
 
     elif isinstance(array, ak._util.unknowntypes):
         return numpy.array([])
-- 
2.43.0


From d9f504597d00accaba616b23c46ffb5c1082216f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:02 +0000
Subject: [PATCH 13/79] fix: ak.concatenate with axis > 0 of lazy arrays

Missing lists were treated differently (or an error was raised) if an input
was a VirtualArray, because only eager inputs were recognized as lists.
---
 src/awkward/operations/structure.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index f1419a0..d4bf118 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -1580,14 +1580,21 @@ def concatenate(
 
     else:
 
+        def materialize(x):
+            while isinstance(x, ak._util.virtualtypes):
+                x = x.array
+            return x
+
         def getfunction(inputs, depth):
+            inputs = [materialize(x) for x in inputs]
+
             if depth == posaxis and any(
                 isinstance(x, ak._util.optiontypes) for x in inputs
             ):
                 nextinputs = []
                 for x in inputs:
                     if isinstance(x, ak._util.optiontypes) and isinstance(
-                        x.content, ak._util.listtypes
+                        materialize(x.content), ak._util.listtypes
                     ):
                         nextinputs.append(fill_none(x, [], highlevel=False))
                     else:
-- 
2.43.0


From 8e661534f720a1cf05009f2dd598976e332cba75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:43 +0000
Subject: [PATCH 14/79] fix: ak.packed and pickling of zero-size regular and of
 masked indexed arrays

ak.packed raised ZeroDivisionError for a RegularArray of size 0 and
AttributeError if a masked array simplifies to an IndexedOptionArray.
---
 src/awkward/operations/structure.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index d4bf118..295142d 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -2299,22 +2299,21 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
             if not len(layout):
                 return layout
 
-            content = layout.content
-
             # Truncate content if it is larger than a perfect
             # multiple of the RegularArray size
-            n, r = divmod(len(content), layout.size)
-            if r != 0:
-                content = truncate(content, n * layout.size)
+            content = truncate(layout.content, len(layout) * layout.size)
 
             return ak.layout.RegularArray(
-                apply(content, depth + 1, posaxis), layout.size
+                apply(content, depth + 1, posaxis), layout.size, len(layout)
             )
 
         # BitMaskedArrays can change length
         elif isinstance(layout, ak.layout.BitMaskedArray):
             layout = layout.simplify()
 
+            if not isinstance(layout, ak.layout.BitMaskedArray):
+                return apply(layout, depth, posaxis)
+
             if not isinstance(ak.type(layout.content), ak.types.PrimitiveType):
                 return apply(layout.toIndexedOptionArray64(), depth, posaxis)
 
@@ -2332,6 +2331,9 @@ def _packed(array, axis=None, highlevel=True, behavior=None):
         elif isinstance(layout, ak.layout.ByteMaskedArray):
             layout = layout.simplify()
 
+            if not isinstance(layout, ak.layout.ByteMaskedArray):
+                return apply(layout, depth, posaxis)
+
             if not isinstance(ak.type(layout.content), ak.types.PrimitiveType):
                 return apply(layout.toIndexedOptionArray64(), depth, posaxis)
 
-- 
2.43.0


From e1698bdde5312fc7d26da65d57ea677b62c2582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:33 +0000
Subject: [PATCH 15/79] fix: merge lazy arrays that materialize to lazy arrays

The slice of a lazy array can materialize to another lazy array; merging only
looked through one of them and took the lengths or contents of the inner one
as if they were eager, which gave wrong lists.
---
 src/libawkward/Content.cpp            | 4 ++--
 src/libawkward/array/IndexedArray.cpp | 4 ++--
 src/libawkward/array/UnionArray.cpp   | 8 +++-----
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/libawkward/Content.cpp b/src/libawkward/Content.cpp
index e94ce2f..99605cc 100644
--- a/src/libawkward/Content.cpp
+++ b/src/libawkward/Content.cpp
@@ -941,7 +941,7 @@ namespace awkward {
     size_t i = 0;
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
-      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+      while (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
         other = raw->array();
       }
       if (dynamic_cast<IndexedArray32*>(other.get())  ||
@@ -964,7 +964,7 @@ namespace awkward {
 
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
-      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+      while (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
         other = raw->array();
       }
       tail.push_back(other);
diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index ccdf670..8423095 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -1799,7 +1799,7 @@ namespace awkward {
     size_t i = 0;
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
-      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+      while (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
         other = raw->array();
       }
       if (dynamic_cast<UnionArray8_32*>(other.get())  ||
@@ -1814,7 +1814,7 @@ namespace awkward {
 
     for (;  i < others.size();  i++) {
       ContentPtr other = others[i];
-      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+      while (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
         other = raw->array();
       }
       tail.push_back(other);
diff --git a/src/libawkward/array/UnionArray.cpp b/src/libawkward/array/UnionArray.cpp
index 4f64688..d262a32 100644
--- a/src/libawkward/array/UnionArray.cpp
+++ b/src/libawkward/array/UnionArray.cpp
@@ -1751,12 +1751,10 @@ namespace awkward {
 
     for (size_t i = 0;  i < others.size();  i++) {
       ContentPtr other = others[i];
-      if (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
-        head.push_back(raw->array());
-      }
-      else {
-        head.push_back(other);
+      while (VirtualArray* raw = dynamic_cast<VirtualArray*>(other.get())) {
+        other = raw->array();
       }
+      head.push_back(other);
     }
 
     return std::pair<ContentPtrVec, ContentPtrVec>(head, tail);
-- 
2.43.0


From 21bfd98537b8c6b6106528c401c512c5c179bb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:08 +0000
Subject: [PATCH 16/79] fix: ak.flatten(axis=None) and reducers of records with
 long columns

Values beyond the length of the record array, which are not part of the array,
were included.
---
 src/awkward/_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index 76bde2e..c6a728e 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -498,7 +498,7 @@ def completely_flatten(array):
     elif isinstance(array, recordtypes):
         out = []
         for i in range(array.numfields):
-            out.extend(completely_flatten(array.field(i)))
+            out.extend(completely_flatten(array.field(i)[: len(array)]))
         return tuple(out)
 
     elif isinstance(array, ak.layout.NumpyArray):
-- 
2.43.0


From de10f18637597f3854e3ca2e9a91bf5c5ff5af22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:19 +0000
Subject: [PATCH 17/79] fix: use of lazy slices whose form cannot be predicted
 exactly

The expected form of a lazy slice is predicted from that of the sliced array.
With nested lazy, indexed and option-type nodes, the prediction can differ from
the form that the slice gets when these nodes are merged, and valid operations
raised 'generated array does not conform to expected form'.
---
 include/awkward/virtual/ArrayGenerator.h  | 11 ++++++++++-
 src/libawkward/virtual/ArrayGenerator.cpp | 16 ++++++++++++++++
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/include/awkward/virtual/ArrayGenerator.h b/include/awkward/virtual/ArrayGenerator.h
index 86fc76e..69922a6 100644
--- a/include/awkward/virtual/ArrayGenerator.h
+++ b/include/awkward/virtual/ArrayGenerator.h
@@ -56,7 +56,7 @@ namespace awkward {
     /// @brief Creates an array and checks it against the #form.
     /// If form was not available intially, no check is made and the form
     /// inferred from the result is saved in case it is useful later
-    const ContentPtr
+    virtual const ContentPtr
       generate_and_check();
 
     /// @brief Accumulates all the unique #ArrayCache objects from nested
@@ -120,6 +120,15 @@ namespace awkward {
     const ContentPtr
       generate() const override;
 
+    /// @brief Creates an array and checks its length.
+    ///
+    /// The #form of a slice is not checked because it was not declared by
+    /// the user: it is predicted from the content's #form (which is checked
+    /// when the content is generated), without knowing which of the nested
+    /// indexed and option-type nodes will be merged.
+    const ContentPtr
+      generate_and_check() override;
+
     void
       caches(std::vector<ArrayCachePtr>& out) const override;
 
diff --git a/src/libawkward/virtual/ArrayGenerator.cpp b/src/libawkward/virtual/ArrayGenerator.cpp
index eedb888..b20fff8 100644
--- a/src/libawkward/virtual/ArrayGenerator.cpp
+++ b/src/libawkward/virtual/ArrayGenerator.cpp
@@ -92,6 +92,22 @@ namespace awkward {
     }
   }
 
+  const ContentPtr
+  SliceGenerator::generate_and_check() {
+    ContentPtr out = generate();
+    if (length_ >= 0  &&  length_ > out.get()->length()) {
+      throw std::invalid_argument(
+          std::string(
+              "generated array does not have sufficient length: expected ") +
+          std::to_string(length_) + std::string(" but generated ") +
+          std::to_string(out.get()->length()) + FILENAME(__LINE__));
+    }
+    if (form_.get() == nullptr) {
+      inferred_form_ = out.get()->form(true);
+    }
+    return out;
+  }
+
   void
   SliceGenerator::caches(std::vector<ArrayCachePtr>& out) const {
     content_.get()->caches(out);
-- 
2.43.0


From 1ca3d67ba3fd48dcbab87974b786d37bea98a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:34 +0000
Subject: [PATCH 18/79] fix: ak.pad_none of an empty ListArray reads nothing
 from its empty indexes

---
 src/libawkward/array/ListArray.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/libawkward/array/ListArray.cpp b/src/libawkward/array/ListArray.cpp
index 76ad0fd..460e68d 100644
--- a/src/libawkward/array/ListArray.cpp
+++ b/src/libawkward/array/ListArray.cpp
@@ -1319,13 +1319,15 @@ namespace awkward {
     }
     else if (posaxis == depth + 1) {
       int64_t min = target;
-      struct Error err1 = kernel::ListArray_min_range<T>(
-        kernel::lib::cpu,   // DERIVE
-        &min,
-        starts_.data(),
-        stops_.data(),
-        starts_.length());
-      util::handle_error(err1, classname(), identities_.get());
+      if (starts_.length() != 0) {
+        struct Error err1 = kernel::ListArray_min_range<T>(
+          kernel::lib::cpu,   // DERIVE
+          &min,
+          starts_.data(),
+          stops_.data(),
+          starts_.length());
+        util::handle_error(err1, classname(), identities_.get());
+      }
       if (target < min) {
         return shallow_copy();
       }
-- 
2.43.0


From bc67d8a408f3707bff6872383566ed77fe9d88e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:35 +0000
Subject: [PATCH 19/79] fix: ak.to_buffers of strided arrays; ak.to_numpy of
 records with long columns

---
 src/awkward/operations/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 0fd22e2..c59eace 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -338,7 +338,7 @@ def to_numpy(array, allow_missing=True):
         if array.numfields == 0:
             return numpy.empty(len(array), dtype=[])
         contents = [
-            to_numpy(array.field(i), allow_missing=allow_missing)
+            to_numpy(array.field(i), allow_missing=allow_missing)[: len(array)]
             for i in range(array.numfields)
         ]
         if any(len(x.shape) != 1 for x in contents):
@@ -4292,7 +4292,7 @@ def to_buffers(
             fk = form_key(id=str(key_index), layout=layout)
             key = key_format(form_key=fk, attribute="data", partition=str(part))
             array = numpy.asarray(layout)
-            container[key] = little_endian(array)
+            container[key] = numpy.ascontiguousarray(little_endian(array))
             form = ak.forms.Form.from_numpy(array.dtype)
             return ak.forms.NumpyForm(
                 layout.shape[1:],
-- 
2.43.0


From 36b91a4c622b7ebecb93509037dab46263968a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:26 +0000
Subject: [PATCH 20/79] fix: byte length of empty strided NumpyArray

---
 src/libawkward/array/NumpyArray.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 5f48d47..7242294 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -459,6 +459,9 @@ namespace awkward {
     else {
       ssize_t out = itemsize_;
       for (size_t i = 0;  i < shape_.size();  i++) {
+        if (shape_[i] == 0) {
+          return 0;
+        }
         out += (shape_[i] - 1)*strides_[i];
       }
       return out;
-- 
2.43.0


From 518adcef1e4c05d958254d3fffed6ff2f7f25c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:06:13 +0000
Subject: [PATCH 21/79] fix: ak.from_buffers of masked records shorter than
 their mask

---
 src/awkward/operations/convert.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index c59eace..770e14f 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -4540,6 +4540,7 @@ def _form_to_layout(
                 )
                 + ak._util.exception_suffix(__file__)
             )
+        mask = mask[:length]
 
         content = _form_to_layout(
             form.content,
-- 
2.43.0


From b2d41e395dc1d3c411496b5494f890066893f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:32 +0000
Subject: [PATCH 22/79] fix: never hand out an automatic cache key twice, also
 across threads

---
 src/libawkward/virtual/ArrayCache.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/libawkward/virtual/ArrayCache.cpp b/src/libawkward/virtual/ArrayCache.cpp
index c601592..d651598 100644
--- a/src/libawkward/virtual/ArrayCache.cpp
+++ b/src/libawkward/virtual/ArrayCache.cpp
@@ -9,9 +9,7 @@ namespace awkward {
 
   const std::string
   ArrayCache::newkey() {
-    std::string out = std::string("ak") + std::to_string(numkeys);
-    numkeys++;
-    return out;
+    return std::string("ak") + std::to_string(numkeys++);
   }
 
   // Note: if you're creating a pure C++ cache (and it's not ridiculously
-- 
2.43.0


From 488248cbad1f2602c4c61592f49c12d73759c1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:58 +0000
Subject: [PATCH 23/79] fix: an empty slice of a lazy partitioned array reads
 nothing

---
 src/libawkward/partition/PartitionedArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/partition/PartitionedArray.cpp b/src/libawkward/partition/PartitionedArray.cpp
index b1875e9..e3456cd 100644
--- a/src/libawkward/partition/PartitionedArray.cpp
+++ b/src/libawkward/partition/PartitionedArray.cpp
@@ -254,7 +254,7 @@ namespace awkward {
     }
 
     if (partitions.empty()) {
-      partitions.push_back(partitions_[0].get()->getitem_nothing());
+      partitions.push_back(partitions_[0].get()->getitem_range_nowrap(0, 0));
       stops.push_back(0);
     }
     return std::make_shared<IrregularlyPartitionedArray>(partitions, stops);
-- 
2.43.0


From 4f27dd27b7b953b1f0952c1e42f97fc8c4c078a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:12 +0000
Subject: [PATCH 24/79] fix: ak.from_buffers keeps the order of record fields
 and accepts tuples lazily

---
 src/awkward/operations/convert.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 770e14f..3569c75 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -4738,9 +4738,7 @@ def _form_to_layout(
         return ak.layout.NumpyArray(array, identities, parameters)
 
     elif isinstance(form, ak.forms.RecordForm):
-        items = list(form.contents.items())
-        if form.istuple:
-            items.sort(key=lambda x: int(x[0]))
+        items = [(key, form.content(key)) for key in form.keys()]
         contents = []
         minlength = None
         keys = []
@@ -4923,8 +4921,12 @@ def _from_buffers_key():
 def _wrap_record_with_virtual(input_form):
     def modify(form):
         if form["class"] == "RecordArray":
-            for item in form["contents"].values():
-                modify(item)
+            if isinstance(form["contents"], dict):
+                keys = list(form["contents"].keys())
+            else:
+                keys = range(len(form["contents"]))
+            for key in keys:
+                modify(form["contents"][key])
         elif form["class"].startswith("UnionArray"):
             for item in form["contents"]:
                 modify(item)
@@ -4932,7 +4934,7 @@ def _wrap_record_with_virtual(input_form):
             modify(form["content"])
 
         if form["class"] == "RecordArray":
-            for key in form["contents"].keys():
+            for key in keys:
                 form["contents"][key] = {
                     "class": "VirtualArray",
                     "has_length": True,
-- 
2.43.0


From 8a234d1dcf4b1967c066e2102bf976dd5803591a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:34 +0000
Subject: [PATCH 25/79] fix: ak.to_json of partitioned arrays

---
 src/awkward/operations/convert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 3569c75..10d2556 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -1200,6 +1200,9 @@ def to_json(
             + ak._util.exception_suffix(__file__)
         )
 
+    if isinstance(out, ak.partition.PartitionedArray):
+        out = out.toContent()
+
     if complex_record_fields is None:
         complex_real_string = None
         complex_imag_string = None
-- 
2.43.0


From c52469a04aee2adc15c13e21a008632f6c4186f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:33 +0000
Subject: [PATCH 26/79] fix: lazy arrays do not show more items than their
 declared length

---
 src/libawkward/virtual/ArrayGenerator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libawkward/virtual/ArrayGenerator.cpp b/src/libawkward/virtual/ArrayGenerator.cpp
index b20fff8..6c2c199 100644
--- a/src/libawkward/virtual/ArrayGenerator.cpp
+++ b/src/libawkward/virtual/ArrayGenerator.cpp
@@ -48,6 +48,9 @@ namespace awkward {
     if (form_.get() == nullptr) {
       inferred_form_ = out.get()->form(true);
     }
+    if (length_ >= 0  &&  length_ < out.get()->length()) {
+      return out.get()->getitem_range_nowrap(0, length_);
+    }
     return out;
   }
 
@@ -105,6 +108,9 @@ namespace awkward {
     if (form_.get() == nullptr) {
       inferred_form_ = out.get()->form(true);
     }
+    if (length_ >= 0  &&  length_ < out.get()->length()) {
+      return out.get()->getitem_range_nowrap(0, length_);
+    }
     return out;
   }
 
-- 
2.43.0


From 812ec0680c9957c0723f0f340a4b318a6bc466bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:29 +0000
Subject: [PATCH 27/79] fix: first use of ak.from_buffers from several threads
 at once

---
 src/awkward/operations/convert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 10d2556..7952dbc 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -4444,7 +4444,8 @@ def _form_to_layout(
 ):
     global _index_form_to_dtype, _index_form_to_index, _form_to_layout_class
 
-    if _index_form_to_dtype is None:
+    # test the last one to be assigned: another thread may be in the middle of this
+    if _form_to_layout_class is None:
         _index_form_to_dtype = {
             "i8": np.dtype("<i1"),
             "u8": np.dtype("<u1"),
-- 
2.43.0


From 1314585c1056baba9e3712cf0095d89f26aee998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:55 +0000
Subject: [PATCH 28/79] fix: a failed clear of an ArrayBuilder does not expose
 its snapshots to overwriting

---
 src/libawkward/builder/GrowableBuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/builder/GrowableBuffer.cpp b/src/libawkward/builder/GrowableBuffer.cpp
index 38cd6b6..dc038b2 100644
--- a/src/libawkward/builder/GrowableBuffer.cpp
+++ b/src/libawkward/builder/GrowableBuffer.cpp
@@ -114,9 +114,9 @@ namespace awkward {
   template <typename T>
   void
   GrowableBuffer<T>::clear() {
+    ptr_ = kernel::malloc<T>(kernel::lib::cpu, options_.initial()*(int64_t)sizeof(T));
     length_ = 0;
     reserved_ = options_.initial();
-    ptr_ = kernel::malloc<T>(kernel::lib::cpu, options_.initial()*(int64_t)sizeof(T));
   }
 
   template <typename T>
-- 
2.43.0


From 908c5fd57b65fdf7487ef875546a4b14eb396163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:14 +0000
Subject: [PATCH 29/79] fix: growable buffers grow whatever initial and resize
 are

---
 src/libawkward/builder/GrowableBuffer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/builder/GrowableBuffer.cpp b/src/libawkward/builder/GrowableBuffer.cpp
index dc038b2..3913338 100644
--- a/src/libawkward/builder/GrowableBuffer.cpp
+++ b/src/libawkward/builder/GrowableBuffer.cpp
@@ -4,6 +4,7 @@
 
 #include "awkward/builder/GrowableBuffer.h"
 
+#include <algorithm>
 #include <complex>
 #include <cmath>
 #include <cstring>
@@ -123,7 +124,8 @@ namespace awkward {
   void
   GrowableBuffer<T>::append(T datum) {
     if (length_ == reserved_) {
-      set_reserved((int64_t)ceil(reserved_ * options_.resize()));
+      set_reserved(std::max((int64_t)ceil(reserved_ * options_.resize()),
+                            reserved_ + 1));
     }
     ptr_.get()[length_] = datum;
     length_++;
-- 
2.43.0


From c2f56fc949af896efe0e8f6dd382a34457f10efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:14 +0000
Subject: [PATCH 30/79] fix: ArrayBuilder::clear keeps the type knowledge and
 closes what was open

---
 src/libawkward/builder/ListBuilder.cpp   | 1 +
 src/libawkward/builder/RecordBuilder.cpp | 9 +++------
 src/libawkward/builder/TupleBuilder.cpp  | 4 +++-
 src/libawkward/builder/UnionBuilder.cpp  | 1 +
 4 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/libawkward/builder/ListBuilder.cpp b/src/libawkward/builder/ListBuilder.cpp
index b5520f6..9cfeab0 100644
--- a/src/libawkward/builder/ListBuilder.cpp
+++ b/src/libawkward/builder/ListBuilder.cpp
@@ -50,6 +50,7 @@ namespace awkward {
     offsets_.clear();
     offsets_.append(0);
     content_.get()->clear();
+    begun_ = false;
   }
 
   const ContentPtr
diff --git a/src/libawkward/builder/RecordBuilder.cpp b/src/libawkward/builder/RecordBuilder.cpp
index 60036f0..8065aad 100644
--- a/src/libawkward/builder/RecordBuilder.cpp
+++ b/src/libawkward/builder/RecordBuilder.cpp
@@ -83,15 +83,12 @@ namespace awkward {
     for (auto x : contents_) {
       x.get()->clear();
     }
-    keys_.clear();
-    pointers_.clear();
-    name_ = "";
-    nameptr_ = nullptr;
-    length_ = -1;
+    if (length_ != -1) {
+      length_ = 0;
+    }
     begun_ = false;
     nextindex_ = -1;
     nexttotry_ = 0;
-    keys_size_ = 0;
   }
 
   const ContentPtr
diff --git a/src/libawkward/builder/TupleBuilder.cpp b/src/libawkward/builder/TupleBuilder.cpp
index a6dd45e..9d89aab 100644
--- a/src/libawkward/builder/TupleBuilder.cpp
+++ b/src/libawkward/builder/TupleBuilder.cpp
@@ -58,7 +58,9 @@ namespace awkward {
     for (auto x : contents_) {
       x.get()->clear();
     }
-    length_ = -1;
+    if (length_ != -1) {
+      length_ = 0;
+    }
     begun_ = false;
     nextindex_ = -1;
   }
diff --git a/src/libawkward/builder/UnionBuilder.cpp b/src/libawkward/builder/UnionBuilder.cpp
index 1064cea..3a49de0 100644
--- a/src/libawkward/builder/UnionBuilder.cpp
+++ b/src/libawkward/builder/UnionBuilder.cpp
@@ -65,6 +65,7 @@ namespace awkward {
     for (auto x : contents_) {
       x.get()->clear();
     }
+    current_ = -1;
   }
 
   const ContentPtr
-- 
2.43.0


From 08af93b6c58ec6138fcfc0ff29b689e00c587eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:14 +0000
Subject: [PATCH 31/79] fix: check tuple indexes of an ArrayBuilder against the
 innermost open tuple

---
 src/libawkward/builder/ArrayBuilder.cpp |  5 +++++
 src/libawkward/builder/TupleBuilder.cpp | 16 ++++++++--------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/builder/ArrayBuilder.cpp b/src/libawkward/builder/ArrayBuilder.cpp
index 346cd38..b14d8b8 100644
--- a/src/libawkward/builder/ArrayBuilder.cpp
+++ b/src/libawkward/builder/ArrayBuilder.cpp
@@ -156,6 +156,11 @@ namespace awkward {
 
   void
   ArrayBuilder::begintuple(int64_t numfields) {
+    if (numfields < 0) {
+      throw std::invalid_argument(
+        std::string("number of fields of a tuple must not be negative")
+        + FILENAME(__LINE__));
+    }
     maybeupdate(builder_.get()->begintuple(numfields));
   }
 
diff --git a/src/libawkward/builder/TupleBuilder.cpp b/src/libawkward/builder/TupleBuilder.cpp
index 9d89aab..b8a086b 100644
--- a/src/libawkward/builder/TupleBuilder.cpp
+++ b/src/libawkward/builder/TupleBuilder.cpp
@@ -342,16 +342,16 @@ namespace awkward {
         std::string("called 'index' without 'begin_tuple' at the same level before it")
         + FILENAME(__LINE__));
     }
-    else if (index >= (int64_t)contents_.size()) {
-      throw std::invalid_argument(
-        std::string("'index' ")
-        + std::to_string(index)
-        + (" is out of bounds for a tuple with number of fields ")
-        + std::to_string(contents_.size())
-        + FILENAME(__LINE__));
-    }
     else if (nextindex_ == -1  ||
              !contents_[(size_t)nextindex_].get()->active()) {
+      if (index < 0  ||  index >= (int64_t)contents_.size()) {
+        throw std::invalid_argument(
+          std::string("'index' ")
+          + std::to_string(index)
+          + (" is out of bounds for a tuple with number of fields ")
+          + std::to_string(contents_.size())
+          + FILENAME(__LINE__));
+      }
       nextindex_ = index;
     }
     else {
-- 
2.43.0


From 293a231038dbef869281ed9ed347b5f2e591bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:46 +0000
Subject: [PATCH 32/79] fix: items of arrays with dates before 1970 and
 negative timedeltas

---
 src/python/content.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/content.cpp b/src/python/content.cpp
index c285784..a966485 100644
--- a/src/python/content.cpp
+++ b/src/python/content.cpp
@@ -84,11 +84,11 @@ box(const std::shared_ptr<ak::Content>& content) {
                    reinterpret_cast<double*>(raw->data())));
         case ak::util::dtype::datetime64:
           return py::module::import("numpy").attr("datetime64")(
-                   reinterpret_cast<uint64_t*>(raw->data()),
+                   reinterpret_cast<int64_t*>(raw->data()),
                    ak::util::format_to_units(raw->format()));
         case ak::util::dtype::timedelta64:
           return py::module::import("numpy").attr("timedelta64")(
-                   reinterpret_cast<uint64_t*>(raw->data()),
+                   reinterpret_cast<int64_t*>(raw->data()),
                    ak::util::format_to_units(raw->format()));
         default:
           if (raw->ptr_lib() == ak::kernel::lib::cuda) {
-- 
2.43.0


From bb589ceade6cb1e27edb2c7849b7b89d06e9d1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:46 +0000
Subject: [PATCH 33/79] fix: merge complex arrays with real arrays

---
 src/libawkward/array/NumpyArray.cpp | 66 +++++++++++++++++++----------
 1 file changed, 44 insertions(+), 22 deletions(-)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index 7242294..bab8481 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -2685,7 +2685,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<bool*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int8:
           err = kernel::NumpyArray_fill<int8_t, std::complex<float>>(
@@ -2693,7 +2694,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int16:
           err = kernel::NumpyArray_fill<int16_t, std::complex<float>>(
@@ -2701,7 +2703,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int32:
           err = kernel::NumpyArray_fill<int32_t, std::complex<float>>(
@@ -2709,7 +2712,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int64:
           err = kernel::NumpyArray_fill<int64_t, std::complex<float>>(
@@ -2717,7 +2721,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint8:
           err = kernel::NumpyArray_fill<uint8_t, std::complex<float>>(
@@ -2725,7 +2730,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint16:
           err = kernel::NumpyArray_fill<uint16_t, std::complex<float>>(
@@ -2733,7 +2739,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint32:
           err = kernel::NumpyArray_fill<uint32_t, std::complex<float>>(
@@ -2741,7 +2748,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint64:
           err = kernel::NumpyArray_fill<uint64_t, std::complex<float>>(
@@ -2749,7 +2757,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::float16:
           throw std::runtime_error(
@@ -2762,7 +2771,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<float*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::float64:
           err = kernel::NumpyArray_fill<double, std::complex<float>>(
@@ -2770,7 +2780,8 @@ namespace awkward {
             reinterpret_cast<std::complex<float>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<double*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::complex64:
           err = kernel::NumpyArray_fill<std::complex<float>, std::complex<float>>(
@@ -2799,7 +2810,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<bool*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int8:
           err = kernel::NumpyArray_fill<int8_t, std::complex<double>>(
@@ -2807,7 +2819,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int16:
           err = kernel::NumpyArray_fill<int16_t, std::complex<double>>(
@@ -2815,7 +2828,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int32:
           err = kernel::NumpyArray_fill<int32_t, std::complex<double>>(
@@ -2823,7 +2837,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::int64:
           err = kernel::NumpyArray_fill<int64_t, std::complex<double>>(
@@ -2831,7 +2846,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<int64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint8:
           err = kernel::NumpyArray_fill<uint8_t, std::complex<double>>(
@@ -2839,7 +2855,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint8_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint16:
           err = kernel::NumpyArray_fill<uint16_t, std::complex<double>>(
@@ -2847,7 +2864,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint16_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint32:
           err = kernel::NumpyArray_fill<uint32_t, std::complex<double>>(
@@ -2855,7 +2873,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint32_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::uint64:
           err = kernel::NumpyArray_fill<uint64_t, std::complex<double>>(
@@ -2863,7 +2882,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<uint64_t*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::float16:
           throw std::runtime_error(
@@ -2876,7 +2896,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<float*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::float64:
           err = kernel::NumpyArray_fill<double, std::complex<double>>(
@@ -2884,7 +2905,8 @@ namespace awkward {
             reinterpret_cast<std::complex<double>*>(ptr.get()),
             flatlength_so_far,
             reinterpret_cast<double*>(contiguous_array.data()),
-            flatlength >> 1);
+            flatlength);
+          flatlength = flatlength * 2;
           break;
         case util::dtype::complex64:
           err = kernel::NumpyArray_fill<std::complex<float>, std::complex<double>>(
-- 
2.43.0


From 6213d859e672eca0c5ab44018c37772fa6266c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:46 +0000
Subject: [PATCH 34/79] fix: merge into 32-bit indexed arrays from the right

---
 src/libawkward/array/IndexedArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index 8423095..115aa20 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -1757,7 +1757,7 @@ namespace awkward {
         theirlength);
       util::handle_error(err2, classname(), identities_.get());
     }
-    if (std::is_same<T, int64_t>::value) {
+    else if (std::is_same<T, int64_t>::value) {
       struct Error err2 = kernel::IndexedArray_fill<int64_t, int64_t>(
         kernel::lib::cpu,   // DERIVE
         index.data(),
-- 
2.43.0


From 583b005b2721ba5d56a5ef3558ddd99d7bc866a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:46 +0000
Subject: [PATCH 35/79] fix: complex numbers in ArrayBuilder after integers;
 end_record where no record is open

---
 src/libawkward/builder/Complex128Builder.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/builder/Complex128Builder.cpp b/src/libawkward/builder/Complex128Builder.cpp
index 6615ed1..aec7998 100644
--- a/src/libawkward/builder/Complex128Builder.cpp
+++ b/src/libawkward/builder/Complex128Builder.cpp
@@ -24,7 +24,7 @@ namespace awkward {
       GrowableBuffer<std::complex<double>>::empty(options, old.reserved());
     int64_t* oldraw = old.ptr().get();
     std::complex<double>* newraw = buffer.ptr().get();
-    for (int64_t i = 0;  i < 2*old.length();  i++) {
+    for (int64_t i = 0;  i < old.length();  i++) {
       newraw[i] = {static_cast<double>(oldraw[i]), 0};
     }
     buffer.set_length(old.length());
@@ -190,7 +190,9 @@ namespace awkward {
 
   const BuilderPtr
   Complex128Builder::endrecord() {
-    return shared_from_this();
+    throw std::invalid_argument(
+      std::string("called 'end_record' without 'begin_record' at the same level before it")
+      + FILENAME(__LINE__));
   }
 
   const BuilderPtr
-- 
2.43.0


From 02ebe334b75f3bf17fc352618d9026d294591f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:46 +0000
Subject: [PATCH 36/79] fix: parameters of snapshots of appended indexed arrays

---
 src/libawkward/builder/IndexedBuilder.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/builder/IndexedBuilder.cpp b/src/libawkward/builder/IndexedBuilder.cpp
index 7e783a2..ba51f2f 100644
--- a/src/libawkward/builder/IndexedBuilder.cpp
+++ b/src/libawkward/builder/IndexedBuilder.cpp
@@ -297,14 +297,14 @@ namespace awkward {
     if (hasnull_) {
       return std::make_shared<IndexedOptionArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
     else {
       return std::make_shared<IndexedArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
@@ -345,14 +345,14 @@ namespace awkward {
     if (hasnull_) {
       return std::make_shared<IndexedOptionArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
     else {
       return std::make_shared<IndexedArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
@@ -393,14 +393,14 @@ namespace awkward {
     if (hasnull_) {
       return std::make_shared<IndexedOptionArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
     else {
       return std::make_shared<IndexedArray64>(
         Identities::none(),
-        array_.get()->content().get()->parameters(),
+        array_.get()->parameters(),
         index,
         array_.get()->content());
     }
@@ -443,7 +443,7 @@ namespace awkward {
     Index64 index(index_.ptr(), 0, index_.length(), kernel::lib::cpu);
     return std::make_shared<IndexedOptionArray64>(
       Identities::none(),
-      array_.get()->content().get()->parameters(),
+      array_.get()->parameters(),
       index,
       array_.get()->content());
   }
@@ -484,7 +484,7 @@ namespace awkward {
     Index64 index(index_.ptr(), 0, index_.length(), kernel::lib::cpu);
     return std::make_shared<IndexedOptionArray64>(
       Identities::none(),
-      array_.get()->content().get()->parameters(),
+      array_.get()->parameters(),
       index,
       array_.get()->content());
   }
-- 
2.43.0


From 260345d04141269c7f58fae164f13a0dd2e15a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:08 +0000
Subject: [PATCH 37/79] fix: ArrayBuilder keeps strings and bytestrings apart

---
 src/libawkward/builder/StringBuilder.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libawkward/builder/StringBuilder.cpp b/src/libawkward/builder/StringBuilder.cpp
index 3810f04..d0240b0 100644
--- a/src/libawkward/builder/StringBuilder.cpp
+++ b/src/libawkward/builder/StringBuilder.cpp
@@ -152,6 +152,11 @@ namespace awkward {
 
   const BuilderPtr
   StringBuilder::string(const char* x, int64_t length, const char* encoding) {
+    if ((encoding == nullptr) != (encoding_ == nullptr)) {
+      BuilderPtr out = UnionBuilder::fromsingle(options_, shared_from_this());
+      out.get()->string(x, length, encoding);
+      return out;
+    }
     if (length < 0) {
       for (int64_t i = 0;  x[i] != 0;  i++) {
         content_.append((uint8_t)x[i]);
-- 
2.43.0


From d9082b7e29df0fd886dd3694ea79117db3f13441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:24 +0000
Subject: [PATCH 38/79] fix: too many types in an ArrayBuilder is an error, not
 a crash

---
 src/libawkward/builder/UnionBuilder.cpp | 35 +++++++++++++++++--------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/libawkward/builder/UnionBuilder.cpp b/src/libawkward/builder/UnionBuilder.cpp
index 3a49de0..e42ede0 100644
--- a/src/libawkward/builder/UnionBuilder.cpp
+++ b/src/libawkward/builder/UnionBuilder.cpp
@@ -24,6 +24,19 @@
 #include "awkward/builder/UnionBuilder.h"
 
 namespace awkward {
+  namespace {
+    void
+    add_content(std::vector<BuilderPtr>& contents, const BuilderPtr& content) {
+      if (contents.size() >= (size_t)kMaxInt8) {
+        throw std::invalid_argument(
+          std::string("cannot build a union of more than ")
+          + std::to_string((int)kMaxInt8) + std::string(" types")
+          + FILENAME(__LINE__));
+      }
+      contents.push_back(content);
+    }
+  }
+
   const BuilderPtr
   UnionBuilder::fromsingle(const ArrayBuilderOptions& options,
                            const BuilderPtr& firstcontent) {
@@ -115,7 +128,7 @@ namespace awkward {
       }
       if (tofill.get() == nullptr) {
         tofill = BoolBuilder::fromempty(options_);
-        contents_.push_back(tofill);
+        add_content(contents_, tofill);
       }
       int64_t length = tofill.get()->length();
       tofill.get()->boolean(x);
@@ -142,7 +155,7 @@ namespace awkward {
       }
       if (tofill.get() == nullptr) {
         tofill = Int64Builder::fromempty(options_);
-        contents_.push_back(tofill);
+        add_content(contents_, tofill);
       }
       int64_t length = tofill.get()->length();
       tofill.get()->integer(x);
@@ -184,7 +197,7 @@ namespace awkward {
         }
         else {
           tofill = Float64Builder::fromempty(options_);
-          contents_.push_back(tofill);
+          add_content(contents_, tofill);
         }
       }
       int64_t length = tofill.get()->length();
@@ -243,7 +256,7 @@ namespace awkward {
         }
         else {
           tofill = Complex128Builder::fromempty(options_);
-          contents_.push_back(tofill);
+          add_content(contents_, tofill);
         }
       }
       int64_t length = tofill.get()->length();
@@ -273,7 +286,7 @@ namespace awkward {
       }
       if (tofill.get() == nullptr) {
         tofill = DatetimeBuilder::fromempty(options_, unit);
-        contents_.push_back(tofill);
+        add_content(contents_, tofill);
       }
       int64_t len = tofill.get()->length();
       tofill.get()->datetime(x, unit);
@@ -302,7 +315,7 @@ namespace awkward {
       }
       if (tofill.get() == nullptr) {
         tofill = DatetimeBuilder::fromempty(options_, unit);
-        contents_.push_back(tofill);
+        add_content(contents_, tofill);
       }
       int64_t len = tofill.get()->length();
       tofill.get()->timedelta(x, unit);
@@ -331,7 +344,7 @@ namespace awkward {
       }
       if (tofill.get() == nullptr) {
         tofill = StringBuilder::fromempty(options_, encoding);
-        contents_.push_back(tofill);
+        add_content(contents_, tofill);
       }
       int64_t len = tofill.get()->length();
       tofill.get()->string(x, length, encoding);
@@ -358,7 +371,7 @@ namespace awkward {
       }
       if (tofill.get() == nullptr) {
         tofill = ListBuilder::fromempty(options_);
-        contents_.push_back(tofill);
+        add_content(contents_, tofill);
       }
       tofill->beginlist();
       current_ = i;
@@ -404,7 +417,7 @@ namespace awkward {
       }
       if (tofill.get() == nullptr) {
         tofill = TupleBuilder::fromempty(options_);
-        contents_.push_back(tofill);
+        add_content(contents_, tofill);
       }
       tofill->begintuple(numfields);
       current_ = i;
@@ -465,7 +478,7 @@ namespace awkward {
       }
       if (tofill.get() == nullptr) {
         tofill = RecordBuilder::fromempty(options_);
-        contents_.push_back(tofill);
+        add_content(contents_, tofill);
       }
       tofill->beginrecord(name, check);
       current_ = i;
@@ -560,7 +573,7 @@ namespace awkward {
       }
       if (tofill.get() == nullptr) {
         tofill = IndexedGenericBuilder::fromnulls(options_, 0, array);
-        contents_.push_back(tofill);
+        add_content(contents_, tofill);
       }
       int64_t length = tofill.get()->length();
       tofill.get()->append(array, at);
-- 
2.43.0


From 5c1b8f2b077875da6e893e7fec95472bb0d83e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:22 +0000
Subject: [PATCH 39/79] fix: ArrayBuilder stays consistent when adding a record
 field or tuple runs out of memory

---
 src/libawkward/builder/RecordBuilder.cpp | 36 +++++++++++-------------
 src/libawkward/builder/TupleBuilder.cpp  |  4 ++-
 2 files changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/libawkward/builder/RecordBuilder.cpp b/src/libawkward/builder/RecordBuilder.cpp
index 8065aad..661bebb 100644
--- a/src/libawkward/builder/RecordBuilder.cpp
+++ b/src/libawkward/builder/RecordBuilder.cpp
@@ -470,19 +470,17 @@ namespace awkward {
         }
         i++;
       } while (i != nexttotry_);
-      nextindex_ = keys_size_;
-      nexttotry_ = 0;
-      if (length_ == 0) {
-        contents_.push_back(UnknownBuilder::fromempty(options_));
-      }
-      else {
-        contents_.push_back(
-          OptionBuilder::fromnulls(options_,
-                                   length_,
-                                   UnknownBuilder::fromempty(options_)));
+      BuilderPtr content = UnknownBuilder::fromempty(options_);
+      if (length_ != 0) {
+        content = OptionBuilder::fromnulls(options_, length_, content);
       }
+      contents_.reserve(contents_.size() + 1);
+      pointers_.reserve(pointers_.size() + 1);
       keys_.push_back(std::string(key));
+      contents_.push_back(content);
       pointers_.push_back(key);
+      nextindex_ = keys_size_;
+      nexttotry_ = 0;
       keys_size_ = (int64_t)keys_.size();
       return shared_from_this();
     }
@@ -516,19 +514,17 @@ namespace awkward {
         }
         i++;
       } while (i != nexttotry_);
-      nextindex_ = keys_size_;
-      nexttotry_ = 0;
-      if (length_ == 0) {
-        contents_.push_back(UnknownBuilder::fromempty(options_));
-      }
-      else {
-        contents_.push_back(
-          OptionBuilder::fromnulls(options_,
-                                   length_,
-                                   UnknownBuilder::fromempty(options_)));
+      BuilderPtr content = UnknownBuilder::fromempty(options_);
+      if (length_ != 0) {
+        content = OptionBuilder::fromnulls(options_, length_, content);
       }
+      contents_.reserve(contents_.size() + 1);
+      pointers_.reserve(pointers_.size() + 1);
       keys_.push_back(std::string(key));
+      contents_.push_back(content);
       pointers_.push_back(nullptr);
+      nextindex_ = keys_size_;
+      nexttotry_ = 0;
       keys_size_ = (int64_t)keys_.size();
       return shared_from_this();
     }
diff --git a/src/libawkward/builder/TupleBuilder.cpp b/src/libawkward/builder/TupleBuilder.cpp
index b8a086b..0b12433 100644
--- a/src/libawkward/builder/TupleBuilder.cpp
+++ b/src/libawkward/builder/TupleBuilder.cpp
@@ -304,9 +304,11 @@ namespace awkward {
   const BuilderPtr
   TupleBuilder::begintuple(int64_t numfields) {
     if (length_ == -1) {
+      std::vector<BuilderPtr> contents;
       for (int64_t i = 0;  i < numfields;  i++) {
-        contents_.push_back(BuilderPtr(UnknownBuilder::fromempty(options_)));
+        contents.push_back(BuilderPtr(UnknownBuilder::fromempty(options_)));
       }
+      contents_ = std::move(contents);
       length_ = 0;
     }
 
-- 
2.43.0


From 4b178ce941e1fd7d65733f3cabe1e8614b67179b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:19 +0000
Subject: [PATCH 40/79] fix: broadcasting does not overwrite the mask of its
 first operand

---
 src/awkward/_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/awkward/_util.py b/src/awkward/_util.py
index c6a728e..23dbb93 100644
--- a/src/awkward/_util.py
+++ b/src/awkward/_util.py
@@ -753,7 +753,7 @@ def broadcast_and_apply(  # noqa: C901
                     if mask is None:
                         mask = m
                     else:
-                        nplike.bitwise_or(mask, m, out=mask)
+                        mask = nplike.bitwise_or(mask, m)
 
             nextmask = ak.layout.Index8(mask.view(np.int8))
             index = nplike.full(len(mask), -1, dtype=np.int64)
-- 
2.43.0


From 86b1b437a4cd6d41604c4693aa90ae0adda8fe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:12 +0000
Subject: [PATCH 41/79] fix: a string that could not be appended for lack of
 memory leaves nothing behind

---
 src/libawkward/builder/StringBuilder.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/builder/StringBuilder.cpp b/src/libawkward/builder/StringBuilder.cpp
index d0240b0..9f3478b 100644
--- a/src/libawkward/builder/StringBuilder.cpp
+++ b/src/libawkward/builder/StringBuilder.cpp
@@ -157,17 +157,24 @@ namespace awkward {
       out.get()->string(x, length, encoding);
       return out;
     }
-    if (length < 0) {
-      for (int64_t i = 0;  x[i] != 0;  i++) {
-        content_.append((uint8_t)x[i]);
+    int64_t start = content_.length();
+    try {
+      if (length < 0) {
+        for (int64_t i = 0;  x[i] != 0;  i++) {
+          content_.append((uint8_t)x[i]);
+        }
       }
-    }
-    else {
-      for (int64_t i = 0;  i < length;  i++) {
-        content_.append((uint8_t)x[i]);
+      else {
+        for (int64_t i = 0;  i < length;  i++) {
+          content_.append((uint8_t)x[i]);
+        }
       }
+      offsets_.append(content_.length());
+    }
+    catch (...) {
+      content_.set_length(start);
+      throw;
     }
-    offsets_.append(content_.length());
     return shared_from_this();
   }
 
-- 
2.43.0


From 8c8f856822ec0645523f5721f65b79b0a45f676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:52 +0000
Subject: [PATCH 42/79] fix: ak.from_buffers of arrays with a zero-size inner
 dimension

---
 src/awkward/operations/convert.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index 7952dbc..b87d6b2 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -4728,6 +4728,10 @@ def _form_to_layout(
         else:
             dtype, inner_shape = dtype_inner_shape.subdtype
 
+        if dtype_inner_shape.itemsize == 0:
+            array = numpy.empty((0 if length is None else length,) + inner_shape, dtype)
+            return ak.layout.NumpyArray(array, identities, parameters)
+
         if length is not None:
             actual = len(raw_array) // dtype_inner_shape.itemsize
             if length > actual:
-- 
2.43.0


From fbd38e0e248e5aff66e30dbeeb505bc389d0f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:58 +0000
Subject: [PATCH 43/79] fix: ak.min/ak.max of a partitioned array keep
 'initial' for inner axes

---
 src/awkward/partition.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index c1293ca..1d3742d 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -559,10 +559,17 @@ class PartitionedArray(object):
                 return getattr(self.toContent(), name)(axis, mask, keepdims)
             else:
                 return getattr(self.toContent(), name)(axis, mask, keepdims, initial)
-        else:
+        elif initial is None:
             return self.replace_partitions(
                 [getattr(x, name)(axis, mask, keepdims) for x in self.partitions]
             )
+        else:
+            return self.replace_partitions(
+                [
+                    getattr(x, name)(axis, mask, keepdims, initial)
+                    for x in self.partitions
+                ]
+            )
 
     def count(self, axis, mask, keepdims):
         return self.reduce("count", axis, mask, keepdims)
-- 
2.43.0


From 58deb95bf13eafbbc1bc91e367f512678df3ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:58 +0000
Subject: [PATCH 44/79] fix: copying a partitioned array copies its partitions

---
 src/awkward/partition.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index 1d3742d..d17e8b9 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -403,10 +403,9 @@ class PartitionedArray(object):
         return sum(x.nbytes for x in self.partitions)
 
     def deep_copy(self, *args, **kwargs):
-        out = type(self).__new__(type(self))
-        out.__dict__.update(self.__dict__)
-        out._partitions = [x.deep_copy(*args, **kwargs) for x in out.partitions]
-        return out
+        return self.replace_partitions(
+            [x.deep_copy(*args, **kwargs) for x in self.partitions]
+        )
 
     @property
     def identity(self):
-- 
2.43.0


From 7bcd3a006c5339e1258cbb8ee5114d967be6a63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:13 +0000
Subject: [PATCH 45/79] fix: replacing the only field of a partitioned array

---
 src/awkward/operations/structure.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 295142d..087f640 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -956,7 +956,13 @@ def with_field(base, what, where=None, highlevel=True, behavior=None):
 
         if len(keys) == 0:
             # the only key was removed, so just create new Record
-            out = (ak.layout.RecordArray([what], [where], parameters=base.parameters),)
+            def make_record(x):
+                return ak.layout.RecordArray([x], [where], parameters=base.parameters)
+
+            if isinstance(what, ak.partition.PartitionedArray):
+                out = (ak.partition.apply(make_record, what),)
+            else:
+                out = (make_record(what),)
 
         else:
 
-- 
2.43.0


From 3f70d55530ff37951648ad6ced3a6a8fbd64982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:13 +0000
Subject: [PATCH 46/79] fix: ak.to_buffers numbers the nodes of a virtual array
 like those of a materialized one

---
 src/awkward/operations/convert.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index b87d6b2..d7e79e5 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -4362,6 +4362,8 @@ def to_buffers(
 
         elif isinstance(layout, ak.layout.VirtualArray):
             if virtual == "materialize":
+                # a materialized array must not depend on having been virtual
+                num_form_keys[0] = key_index
                 return fill(layout.array, part)
             elif virtual == "pass":
                 return ak.forms.VirtualForm(
-- 
2.43.0


From 2b5f1d0ef51a1480d024285851bb450000eca7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:31 +0000
Subject: [PATCH 47/79] fix: an ellipsis that stands for no dimension of a
 partitioned array

---
 src/awkward/partition.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index d17e8b9..421d2c4 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -283,6 +283,15 @@ class PartitionedArray(object):
                 )
 
             elif head is Ellipsis:
+                # if the rest of the slice reaches up to the first dimension,
+                # it can't be applied to one partition at a time
+                numdims = len([x for x in tail if x is not np.newaxis])
+                if numdims >= first(self).minmax_depth[0] or not all(
+                    x is np.newaxis
+                    or isinstance(x, (str, slice, numbers.Integral, np.integer))
+                    for x in tail
+                ):
+                    return self.toContent()[where]
                 return IrregularlyPartitionedArray(
                     [x[(head,) + tail] for x in self.partitions]
                 )
-- 
2.43.0


From df37a4926c68feba0eb387ea71dc0056b4447087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:59 +0000
Subject: [PATCH 48/79] fix: ak.run_lengths of lists with leading or trailing
 empty lists

---
 src/awkward/operations/structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/awkward/operations/structure.py b/src/awkward/operations/structure.py
index 087f640..c0cc7be 100644
--- a/src/awkward/operations/structure.py
+++ b/src/awkward/operations/structure.py
@@ -349,7 +349,9 @@ def run_lengths(array, highlevel=True, behavior=None):
             if isinstance(diffs, ak.highlevel.Array):
                 diffs = nplike.asarray(diffs)
             if offsets is not None:
-                diffs[offsets[1:-1] - 1] = True
+                # leading and trailing empty lists have no neighboring elements
+                interior = offsets[(offsets > 0) & (offsets < len(data))]
+                diffs[interior - 1] = True
             positions = nplike.nonzero(diffs)[0]
             full_positions = nplike.empty(len(positions) + 2, np.int64)
             full_positions[0] = 0
-- 
2.43.0


From 98a97485ed04e6b3e4e4d2c34669f4bd8ef1fd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:07 +0000
Subject: [PATCH 49/79] fix: ak.sort and ak.argsort of a slice of a list array

---
 src/libawkward/array/ListOffsetArray.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 79216dc..fa8c164 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1716,6 +1716,16 @@ namespace awkward {
       return shallow_copy();
     }
 
+    if (offsets_.getitem_at_nowrap(0) != 0) {
+      return toListOffsetArray64(true).get()->sort_next(negaxis,
+                                                 starts,
+                                                 parents,
+                                                 outlength,
+                                                 ascending,
+                                                 stable,
+                                                 keepdims);
+    }
+
     std::pair<bool, int64_t> branchdepth = branch_depth();
 
     if (parameter_equals("__array__", "\"string\"")  ||
@@ -1920,6 +1930,16 @@ namespace awkward {
      return shallow_copy();
     }
 
+    if (offsets_.getitem_at_nowrap(0) != 0) {
+      return toListOffsetArray64(true).get()->argsort_next(negaxis,
+                                                 starts,
+                                                 parents,
+                                                 outlength,
+                                                 ascending,
+                                                 stable,
+                                                 keepdims);
+    }
+
     std::pair<bool, int64_t> branchdepth = branch_depth();
 
     if (parameter_equals("__array__", "\"string\"")  ||
-- 
2.43.0


From a14e6a7d643cd0c2472dbb934d5b6a8d7f4600cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:07 +0000
Subject: [PATCH 50/79] fix: ak.num at deeper axes of a slice of a list array

---
 src/libawkward/array/ListOffsetArray.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index fa8c164..797022b 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -966,7 +966,12 @@ namespace awkward {
       return std::make_shared<NumpyArray>(tonum);
     }
     else {
-      ContentPtr next = content_.get()->num(posaxis, depth + 1);
+      // the result's offsets must refer to the same items as the content's
+      int64_t first = (int64_t)offsets_.getitem_at_nowrap(0);
+      int64_t last =
+        (int64_t)offsets_.getitem_at_nowrap(offsets_.length() - 1);
+      ContentPtr trimmed = content_.get()->getitem_range_nowrap(first, last);
+      ContentPtr next = trimmed.get()->num(posaxis, depth + 1);
       Index64 offsets = compact_offsets64(true);
       return std::make_shared<ListOffsetArray64>(Identities::none(),
                                                  util::Parameters(),
-- 
2.43.0


From c901a54c30e9f081aa25ad3cebbd7a2eef2bb0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:00 +0000
Subject: [PATCH 51/79] fix: ak.argmin and ak.argmax of a slice of a list array

---
 src/libawkward/array/ListOffsetArray.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/libawkward/array/ListOffsetArray.cpp b/src/libawkward/array/ListOffsetArray.cpp
index 797022b..1c32f0c 100644
--- a/src/libawkward/array/ListOffsetArray.cpp
+++ b/src/libawkward/array/ListOffsetArray.cpp
@@ -1358,6 +1358,17 @@ namespace awkward {
     int64_t outlength,
     bool mask,
     bool keepdims) const {
+    if (offsets_.getitem_at_nowrap(0) != 0) {
+      return toListOffsetArray64(true).get()->reduce_next(reducer,
+                                                          negaxis,
+                                                          starts,
+                                                          shifts,
+                                                          parents,
+                                                          outlength,
+                                                          mask,
+                                                          keepdims);
+    }
+
     std::pair<bool, int64_t> branchdepth = branch_depth();
 
     if (!branchdepth.first  &&  negaxis == branchdepth.second) {
-- 
2.43.0


From 4bef67874ca3bc8f44768d2018246516f3912589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:45 +0000
Subject: [PATCH 52/79] fix: uninitialized offsets in a jagged slice of no
 lists

---
 src/cpu-kernels/awkward_ListArray_getitem_jagged_apply.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cpu-kernels/awkward_ListArray_getitem_jagged_apply.cpp b/src/cpu-kernels/awkward_ListArray_getitem_jagged_apply.cpp
index 3a77f79..d63be97 100644
--- a/src/cpu-kernels/awkward_ListArray_getitem_jagged_apply.cpp
+++ b/src/cpu-kernels/awkward_ListArray_getitem_jagged_apply.cpp
@@ -17,6 +17,7 @@ ERROR awkward_ListArray_getitem_jagged_apply(
   const C* fromstops,
   int64_t contentlen) {
   int64_t k = 0;
+  tooffsets[0] = 0;
   for (int64_t i = 0;  i < sliceouterlen;  i++) {
     T slicestart = slicestarts[i];
     T slicestop = slicestops[i];
-- 
2.43.0


From 6070c47134679945125580814a409dcce37d95a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:50 +0000
Subject: [PATCH 53/79] fix: ak.num at axis=0 of a partitioned array of tuples
 is a tuple

---
 src/awkward/partition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/awkward/partition.py b/src/awkward/partition.py
index 421d2c4..6bbf454 100644
--- a/src/awkward/partition.py
+++ b/src/awkward/partition.py
@@ -501,6 +501,8 @@ class PartitionedArray(object):
                         for i, ci in enumerate(c):
                             counts[i] += ci
                 arraycounts = [ak.layout.NumpyArray(numpy.array([x])) for x in counts]
+                if prepared[0].istuple:
+                    names = None
                 return ak.layout.Record(ak.layout.RecordArray(arraycounts, names), 0)
             else:
                 return sum(prepared)
-- 
2.43.0


From b86db8280265d8f12a284aafaaa5d64b2f4f93c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:45 +0000
Subject: [PATCH 54/79] fix: ak.argmin and ak.argmax over lists of an indexed
 array at outer axes

---
 src/libawkward/array/IndexedArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/array/IndexedArray.cpp b/src/libawkward/array/IndexedArray.cpp
index 115aa20..15f8eb0 100644
--- a/src/libawkward/array/IndexedArray.cpp
+++ b/src/libawkward/array/IndexedArray.cpp
@@ -2235,7 +2235,7 @@ namespace awkward {
     ContentPtr out = next.get()->reduce_next(reducer,
                                              negaxis,
                                              starts,
-                                             nextshifts,
+                                             ISOPTION ? nextshifts : shifts,
                                              nextparents,
                                              outlength,
                                              mask,
-- 
2.43.0


From f6bf48e221fab0c53ba6b21ebc006dd63391caca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:01 +0000
Subject: [PATCH 55/79] fix: empty bytes in a from_buffers container are no
 data

---
 src/awkward/operations/convert.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/awkward/operations/convert.py b/src/awkward/operations/convert.py
index d7e79e5..4199059 100644
--- a/src/awkward/operations/convert.py
+++ b/src/awkward/operations/convert.py
@@ -4427,6 +4427,9 @@ _index_form_to_dtype = _index_form_to_index = _form_to_layout_class = None
 
 
 def _asbuf(obj):
+    if isinstance(obj, bytes):
+        # NumPy would make one-byte strings of empty bytes
+        return numpy.frombuffer(obj, np.uint8)
     try:
         tmp = numpy.asarray(obj)
     except Exception:
-- 
2.43.0


From 38ee9e05e09e3cf4d2ebd07a39cd3c9de396f72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:04 +0000
Subject: [PATCH 56/79] fix: padding inside records whose columns are longer
 keeps their number

---
 src/libawkward/array/RecordArray.cpp | 36 ++++++++--------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/src/libawkward/array/RecordArray.cpp b/src/libawkward/array/RecordArray.cpp
index 4eae122..0fba697 100644
--- a/src/libawkward/array/RecordArray.cpp
+++ b/src/libawkward/array/RecordArray.cpp
@@ -1420,19 +1420,11 @@ namespace awkward {
       for (auto content : contents_) {
         contents.push_back(content.get()->rpad(target, posaxis, depth));
       }
-      if (contents.empty()) {
-        return std::make_shared<RecordArray>(identities_,
-                                             parameters_,
-                                             contents,
-                                             recordlookup_,
-                                             length_);
-      }
-      else {
-        return std::make_shared<RecordArray>(identities_,
-                                             parameters_,
-                                             contents,
-                                             recordlookup_);
-      }
+      return std::make_shared<RecordArray>(identities_,
+                                           parameters_,
+                                           contents,
+                                           recordlookup_,
+                                           length_);
     }
   }
 
@@ -1450,19 +1442,11 @@ namespace awkward {
         contents.push_back(
           content.get()->rpad_and_clip(target, posaxis, depth));
       }
-      if (contents.empty()) {
-        return std::make_shared<RecordArray>(identities_,
-                                             parameters_,
-                                             contents,
-                                             recordlookup_,
-                                             length_);
-      }
-      else {
-        return std::make_shared<RecordArray>(identities_,
-                                             parameters_,
-                                             contents,
-                                             recordlookup_);
-      }
+      return std::make_shared<RecordArray>(identities_,
+                                           parameters_,
+                                           contents,
+                                           recordlookup_,
+                                           length_);
     }
   }
 
-- 
2.43.0


From d6ca2f260dc5701ed32d864ff7c08cca563a3613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:34 +0000
Subject: [PATCH 57/79] fix: importing data that contain themselves raises
 instead of crashing

---
 src/python/content.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/python/content.cpp b/src/python/content.cpp
index a966485..b07e707 100644
--- a/src/python/content.cpp
+++ b/src/python/content.cpp
@@ -877,8 +877,22 @@ builder_timedelta(ak::ArrayBuilder& self, const py::handle& obj) {
   }
 }
 
+// Data that contain themselves must end in a RecursionError.
+class FromIterRecursion {
+public:
+  FromIterRecursion() {
+    if (Py_EnterRecursiveCall(" while converting Python data to an array")) {
+      throw py::error_already_set();
+    }
+  }
+  ~FromIterRecursion() {
+    Py_LeaveRecursiveCall();
+  }
+};
+
 void
 builder_fromiter(ak::ArrayBuilder& self, const py::handle& obj) {
+  FromIterRecursion recursion;
   if (obj.is(py::none())) {
     self.null();
   }
-- 
2.43.0


From 4879d021eaf49b2d55292cff140f14ace8d13472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:43 +0000
Subject: [PATCH 58/79] fix: stepping through Forth do loops and leaving words
 by exit keep the loops they belong to

---
 src/libawkward/forth/ForthMachine.cpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 78474f9..8e36f50 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2649,6 +2649,8 @@ namespace awkward {
   template <typename T, typename I>
   void
   ForthMachineOf<T, I>::internal_run(bool single_step, int64_t recursion_target_depth_top) { // noexcept
+    // True if a single step has been taken and it was the last of its segment.
+    bool stepped = false;
     while (recursion_current_depth_ != recursion_target_depth_top) {
       while (bytecodes_pointer_where() < (
                  bytecodes_offsets_[(IndexTypeOf<int64_t>)bytecodes_pointer_which() + 1] -
@@ -3154,18 +3156,14 @@ namespace awkward {
               I exitdepth = bytecode_get();
               bytecodes_pointer_where()++;
               recursion_current_depth_ -= exitdepth;
+              // Leave only the 'do' loops of this word, not those of its callers.
               while (do_current_depth_ != 0  &&
-                     do_abs_recursion_depth() != recursion_current_depth_) {
+                     do_abs_recursion_depth() >= recursion_current_depth_) {
                 do_current_depth_--;
               }
 
               count_instructions_++;
-              if (single_step) {
-                if (is_segment_done()) {
-                  bytecodes_pointer_pop();
-                }
-                return;
-              }
+              stepped = single_step;
 
               // StackOverflow said I could: https://stackoverflow.com/a/1257776/1623645
               //
@@ -3791,7 +3789,8 @@ namespace awkward {
         count_instructions_++;
         if (single_step) {
           if (is_segment_done()) {
-            bytecodes_pointer_pop();
+            stepped = true;
+            goto after_end_of_segment;
           }
           return;
         }
@@ -3816,6 +3815,10 @@ namespace awkward {
         }
       }
 
+      if (stepped) {
+        return;
+      }
+
     } // end of all segments
   }
 
-- 
2.43.0


From a03d937b6c580677689de6bcbbb70171b6327369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:38 +0000
Subject: [PATCH 59/79] fix: calling a Forth word while paused leaves the
 paused do loop and the call stack alone

---
 src/libawkward/forth/ForthMachine.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 8e36f50..3d6cc22 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -1234,6 +1234,11 @@ namespace awkward {
       return current_error_;
     }
 
+    if (recursion_current_depth_ == recursion_max_depth_) {
+      current_error_ = util::ForthError::recursion_depth_exceeded;
+      return current_error_;
+    }
+
     recursion_target_depth_.push(recursion_current_depth_);
     bytecodes_pointer_push(dictionary_bytecodes_[(IndexTypeOf<int64_t>)index] - BOUND_DICTIONARY);
 
@@ -3020,6 +3025,7 @@ namespace awkward {
                 bytecodes_pointer_pop();
 
                 if (do_current_depth_ != 0  &&
+                    recursion_current_depth_ != recursion_target_depth_top  &&
                     do_abs_recursion_depth() == recursion_current_depth_) {
                   // End one step of a 'do ... loop' or a 'do ... +loop'.
                   if (do_loop_is_step()) {
@@ -3801,6 +3807,7 @@ namespace awkward {
       bytecodes_pointer_pop();
 
       if (do_current_depth_ != 0  &&
+          recursion_current_depth_ != recursion_target_depth_top  &&
           do_abs_recursion_depth() == recursion_current_depth_) {
         // End one step of a 'do ... loop' or a 'do ... +loop'.
         if (do_loop_is_step()) {
-- 
2.43.0


From 510bcf1cf5617cc906184874b6139cd3daef13aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:38 +0000
Subject: [PATCH 60/79] fix: a Forth program cannot read or rewind outside of
 its buffers with a negative or huge count

---
 src/libawkward/forth/ForthInputBuffer.cpp  | 10 ++++------
 src/libawkward/forth/ForthMachine.cpp      |  6 ++++++
 src/libawkward/forth/ForthOutputBuffer.cpp |  5 ++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/libawkward/forth/ForthInputBuffer.cpp b/src/libawkward/forth/ForthInputBuffer.cpp
index 13807d6..72f2a7b 100644
--- a/src/libawkward/forth/ForthInputBuffer.cpp
+++ b/src/libawkward/forth/ForthInputBuffer.cpp
@@ -15,15 +15,14 @@ namespace awkward {
 
   void*
   ForthInputBuffer::read(int64_t num_bytes, util::ForthError& err) noexcept {
-    int64_t next = pos_ + num_bytes;
-    if (next > length_) {
+    if (num_bytes < 0  ||  num_bytes > length_ - pos_) {
       err = util::ForthError::read_beyond;
       return nullptr;
     }
     void* out = reinterpret_cast<void*>(
         reinterpret_cast<size_t>(ptr_.get()) + (size_t)offset_ + (size_t)pos_
     );
-    pos_ = next;
+    pos_ += num_bytes;
     return out;
   }
 
@@ -39,12 +38,11 @@ namespace awkward {
 
   void
   ForthInputBuffer::skip(int64_t num_bytes, util::ForthError& err) noexcept {
-    int64_t next = pos_ + num_bytes;
-    if (next < 0  ||  next > length_) {
+    if (num_bytes < -pos_  ||  num_bytes > length_ - pos_) {
       err = util::ForthError::skip_beyond;
     }
     else {
-      pos_ = next;
+      pos_ += num_bytes;
     }
   }
 
diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 3d6cc22..0e1a132 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2699,6 +2699,12 @@ namespace awkward {
 
           I format = ~bytecode & READ_MASK;
 
+          if (format != READ_VARINT  &&  format != READ_ZIGZAG  &&  format != READ_NBIT  &&
+              (num_items < 0  ||  num_items > kMaxInt64 / (int64_t)sizeof(int64_t))) {
+            current_error_ = util::ForthError::read_beyond;
+            return;
+          }
+
           if (format == READ_VARINT) {
             ForthInputBuffer* input = current_inputs_[(IndexTypeOf<int64_t>)in_num].get();
             ForthOutputBuffer* output = nullptr;
diff --git a/src/libawkward/forth/ForthOutputBuffer.cpp b/src/libawkward/forth/ForthOutputBuffer.cpp
index 6fdd512..9e3f70b 100644
--- a/src/libawkward/forth/ForthOutputBuffer.cpp
+++ b/src/libawkward/forth/ForthOutputBuffer.cpp
@@ -66,12 +66,11 @@ namespace awkward {
 
   void
   ForthOutputBuffer::rewind(int64_t num_items, util::ForthError& err) noexcept {
-    int64_t next = length_ - num_items;
-    if (next < 0) {
+    if (num_items < 0  ||  num_items > length_) {
       err = util::ForthError::rewind_beyond;
     }
     else {
-      length_ = next;
+      length_ -= num_items;
     }
   }
 
-- 
2.43.0


From 7e5bc2c99d59cc5da8eacaca550daa6a8dab7daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:55 +0000
Subject: [PATCH 61/79] fix: big-endian Forth reads do not modify their input

---
 src/libawkward/forth/ForthMachine.cpp      |  11 +-
 src/libawkward/forth/ForthOutputBuffer.cpp | 136 ++++++++++++---------
 2 files changed, 79 insertions(+), 68 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 0e1a132..b2e488f 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -1928,7 +1928,7 @@ namespace awkward {
         }
 
         input_names_.push_back(name);
-        input_must_be_writable_.push_back(true);
+        input_must_be_writable_.push_back(false);
 
         pos += 2;
       }
@@ -2353,15 +2353,6 @@ namespace awkward {
             parser = parser.substr(1, parser.length() - 1);
           }
 
-          bool must_be_writable = ((bytecode & READ_REPEATED) != 0);
-          if (NATIVELY_BIG_ENDIAN) {
-            must_be_writable &= ((bytecode & READ_BIGENDIAN) == 0);
-          }
-          else {
-            must_be_writable &= ((bytecode & READ_BIGENDIAN) != 0);
-          }
-          input_must_be_writable_[input_index] = must_be_writable;
-
           bool good = true;
           I nbits = 0;
           if (parser.length() != 0) {
diff --git a/src/libawkward/forth/ForthOutputBuffer.cpp b/src/libawkward/forth/ForthOutputBuffer.cpp
index 9e3f70b..cd216b1 100644
--- a/src/libawkward/forth/ForthOutputBuffer.cpp
+++ b/src/libawkward/forth/ForthOutputBuffer.cpp
@@ -374,11 +374,14 @@ namespace awkward {
                                         int16_t* values,
                                         bool byteswap) noexcept {
     if (byteswap) {
-      byteswap16(num_items, values);
+      for (int64_t i = 0;  i < num_items;  i++) {
+        int16_t value = values[i];
+        byteswap16(1, &value);
+        write_one(value);
+      }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      byteswap16(num_items, values);
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -388,11 +391,14 @@ namespace awkward {
                                         int32_t* values,
                                         bool byteswap) noexcept {
     if (byteswap) {
-      byteswap32(num_items, values);
+      for (int64_t i = 0;  i < num_items;  i++) {
+        int32_t value = values[i];
+        byteswap32(1, &value);
+        write_one(value);
+      }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      byteswap32(num_items, values);
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -402,11 +408,14 @@ namespace awkward {
                                         int64_t* values,
                                         bool byteswap) noexcept {
     if (byteswap) {
-      byteswap64(num_items, values);
+      for (int64_t i = 0;  i < num_items;  i++) {
+        int64_t value = values[i];
+        byteswap64(1, &value);
+        write_one(value);
+      }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      byteswap64(num_items, values);
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -416,21 +425,19 @@ namespace awkward {
                                        ssize_t* values,
                                        bool byteswap) noexcept {
     if (byteswap) {
-      if (sizeof(ssize_t) == 4) {
-        byteswap32(num_items, values);
-      }
-      else {
-        byteswap64(num_items, values);
+      for (int64_t i = 0;  i < num_items;  i++) {
+        ssize_t value = values[i];
+        if (sizeof(ssize_t) == 4) {
+          byteswap32(1, &value);
+        }
+        else {
+          byteswap64(1, &value);
+        }
+        write_one(value);
       }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      if (sizeof(ssize_t) == 4) {
-        byteswap32(num_items, values);
-      }
-      else {
-        byteswap64(num_items, values);
-      }
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -448,11 +455,14 @@ namespace awkward {
                                          uint16_t* values,
                                          bool byteswap) noexcept {
     if (byteswap) {
-      byteswap16(num_items, values);
+      for (int64_t i = 0;  i < num_items;  i++) {
+        uint16_t value = values[i];
+        byteswap16(1, &value);
+        write_one(value);
+      }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      byteswap16(num_items, values);
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -462,11 +472,14 @@ namespace awkward {
                                          uint32_t* values,
                                          bool byteswap) noexcept {
     if (byteswap) {
-      byteswap32(num_items, values);
+      for (int64_t i = 0;  i < num_items;  i++) {
+        uint32_t value = values[i];
+        byteswap32(1, &value);
+        write_one(value);
+      }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      byteswap32(num_items, values);
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -476,11 +489,14 @@ namespace awkward {
                                          uint64_t* values,
                                          bool byteswap) noexcept {
     if (byteswap) {
-      byteswap64(num_items, values);
+      for (int64_t i = 0;  i < num_items;  i++) {
+        uint64_t value = values[i];
+        byteswap64(1, &value);
+        write_one(value);
+      }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      byteswap64(num_items, values);
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -490,21 +506,19 @@ namespace awkward {
                                         size_t* values,
                                         bool byteswap) noexcept {
     if (byteswap) {
-      if (sizeof(size_t) == 4) {
-        byteswap32(num_items, values);
-      }
-      else {
-        byteswap64(num_items, values);
+      for (int64_t i = 0;  i < num_items;  i++) {
+        size_t value = values[i];
+        if (sizeof(size_t) == 4) {
+          byteswap32(1, &value);
+        }
+        else {
+          byteswap64(1, &value);
+        }
+        write_one(value);
       }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      if (sizeof(size_t) == 4) {
-        byteswap32(num_items, values);
-      }
-      else {
-        byteswap64(num_items, values);
-      }
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -514,11 +528,14 @@ namespace awkward {
                                           float* values,
                                           bool byteswap) noexcept {
     if (byteswap) {
-      byteswap32(num_items, values);
+      for (int64_t i = 0;  i < num_items;  i++) {
+        float value = values[i];
+        byteswap32(1, &value);
+        write_one(value);
+      }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      byteswap32(num_items, values);
+    else {
+      write_copy(num_items, values);
     }
   }
 
@@ -528,11 +545,14 @@ namespace awkward {
                                           double* values,
                                           bool byteswap) noexcept {
     if (byteswap) {
-      byteswap64(num_items, values);
+      for (int64_t i = 0;  i < num_items;  i++) {
+        double value = values[i];
+        byteswap64(1, &value);
+        write_one(value);
+      }
     }
-    write_copy(num_items, values);
-    if (byteswap) {
-      byteswap64(num_items, values);
+    else {
+      write_copy(num_items, values);
     }
   }
 
-- 
2.43.0


From e093d3e938d0e5b2ce9ea731a7ba712c4f01944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:56 +0000
Subject: [PATCH 62/79] fix: a 64-bit Forth machine does not truncate what it
 reads to 32 bits

---
 src/libawkward/forth/ForthMachine.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index b2e488f..f535fd1 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2774,7 +2774,7 @@ namespace awkward {
                 stack_push((T)value);   // note: pushing value
               }
               else {
-                output->write_one_int64((T)value, false);   // note: writing value as signed
+                output->write_one_int64(value, false);   // note: writing value as signed
               }
             }
           }
@@ -2928,7 +2928,7 @@ namespace awkward {
                     current_error_ = util::ForthError::stack_overflow;         \
                     return;                                                    \
                   }                                                            \
-                  stack_push((I)value);                                        \
+                  stack_push((T)value);                                        \
                 }                                                              \
                 break;                                                         \
               }
@@ -2954,7 +2954,7 @@ namespace awkward {
                     current_error_ = util::ForthError::stack_overflow;         \
                     return;                                                    \
                   }                                                            \
-                  stack_push((I)value);                                        \
+                  stack_push((T)value);                                        \
                 }                                                              \
                 break;                                                         \
               }
@@ -3218,7 +3218,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->len());
+              stack_push((T)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->len());
               break;
             }
 
@@ -3229,7 +3229,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->pos());
+              stack_push((T)current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->pos());
               break;
             }
 
@@ -3325,7 +3325,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)current_outputs_[(IndexTypeOf<int64_t>)out_num].get()->len());
+              stack_push((T)current_outputs_[(IndexTypeOf<int64_t>)out_num].get()->len());
               break;
             }
 
@@ -3389,7 +3389,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_i());
+              stack_push((T)do_i());
               break;
             }
 
@@ -3398,7 +3398,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_j());
+              stack_push((T)do_j());
               break;
             }
 
@@ -3407,7 +3407,7 @@ namespace awkward {
                 current_error_ = util::ForthError::stack_overflow;
                 return;
               }
-              stack_push((I)do_k());
+              stack_push((T)do_k());
               break;
             }
 
@@ -3615,7 +3615,7 @@ namespace awkward {
                 return;
               }
               T* top = stack_peek();
-              *top = abs(*top);
+              *top = *top < 0 ? -(*top) : *top;
               break;
             }
 
-- 
2.43.0


From beb2e11d1c466fe24461cee0fa5ba2cef722febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:56 +0000
Subject: [PATCH 63/79] fix: Forth bit-width reads of 31 bits and more

---
 src/libawkward/forth/ForthMachine.cpp | 75 ++++++++++-----------------
 1 file changed, 28 insertions(+), 47 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index f535fd1..dc193aa 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2794,59 +2794,40 @@ namespace awkward {
               output = current_outputs_[(IndexTypeOf<int64_t>)out_num].get();
             }
 
-            uint64_t mask = (1 << bit_width) - 1;
-            uint64_t bits_wnd_l = 8;
-            uint64_t bits_wnd_r = 0;
-            int64_t items_remaining = num_items;
-            uint64_t data;
-            uint64_t tmp;
-            uint8_t* tmpptr;
-
-            if (items_remaining != 0) {
-              tmpptr = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
-              if (current_error_ != util::ForthError::none) {
-                return;
-              }
-              tmp = (uint64_t)(*tmpptr);
-              if (flip) {
-                // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
-                tmp = (uint64_t)(bitswap_lookup[tmp & 0b1111] << 4) | bitswap_lookup[tmp >> 4];
-              }
-              data = tmp;
-            }
-            while (items_remaining != 0) {
-              if (bits_wnd_r >= 8) {
-                bits_wnd_r -= 8;
-                bits_wnd_l -= 8;
-                data >>= 8;
-              }
-              else if (bits_wnd_l - bits_wnd_r >= (uint64_t)bit_width) {
-                tmp = (data >> bits_wnd_r) & mask;
-                if (output == nullptr) {
-                  if (stack_cannot_push()) {
-                    current_error_ = util::ForthError::stack_overflow;
+            uint64_t byte = 0;        // what remains of the byte being read
+            int64_t bits_in_byte = 0;
+            for (int64_t count = 0;  count < num_items;  count++) {
+              uint64_t value = 0;
+              int64_t bits_in_value = 0;
+              while (bits_in_value < (int64_t)bit_width) {
+                if (bits_in_byte == 0) {
+                  uint8_t* ptr = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
+                  if (current_error_ != util::ForthError::none) {
                     return;
                   }
-                  stack_push((T)tmp);
-                }
-                else {
-                  output->write_one_int64((T)tmp, false);
+                  byte = (uint64_t)(*ptr);
+                  if (flip) {
+                    // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
+                    byte = (uint64_t)(bitswap_lookup[byte & 0b1111] << 4) | bitswap_lookup[byte >> 4];
+                  }
+                  bits_in_byte = 8;
                 }
-                items_remaining--;
-                bits_wnd_r += (uint64_t)bit_width;
+                int64_t bits = std::min(bits_in_byte, (int64_t)bit_width - bits_in_value);
+                value |= (byte & (((uint64_t)1 << bits) - 1)) << bits_in_value;
+                byte >>= bits;
+                bits_in_byte -= bits;
+                bits_in_value += bits;
               }
-              else {
-                tmpptr = reinterpret_cast<uint8_t*>(input->read(1, current_error_));
-                if (current_error_ != util::ForthError::none) {
+
+              if (output == nullptr) {
+                if (stack_cannot_push()) {
+                  current_error_ = util::ForthError::stack_overflow;
                   return;
                 }
-                tmp = (uint64_t)(*tmpptr);
-                if (flip) {
-                  // For bit-flipping: https://stackoverflow.com/a/2603254/1623645
-                  tmp = (uint64_t)(bitswap_lookup[tmp & 0b1111] << 4) | bitswap_lookup[tmp >> 4];
-                }
-                data |= tmp << bits_wnd_l;
-                bits_wnd_l += 8;
+                stack_push((T)value);
+              }
+              else {
+                output->write_one_uint64(value, false);
               }
             }
           }
-- 
2.43.0


From fa78ce2fa75a6bd53cdf05a5ef740127e837ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:56 +0000
Subject: [PATCH 64/79] fix: dividing the smallest integer by -1 in Forth does
 not kill the process

---
 src/libawkward/forth/ForthMachine.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index dc193aa..28f9a54 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -3519,6 +3519,11 @@ namespace awkward {
               }
               // Forth (gforth, at least) does floor division; C++ does integer division.
               // This makes a difference for negative numerator or denominator.
+              if (pair[1] == -1) {
+                // The smallest integer has no opposite; dividing it would be fatal.
+                pair[0] = (T)(0 - (uint64_t)pair[0]);
+                break;
+              }
               T tmp = pair[0] / pair[1];
               pair[0] = tmp * pair[1] == pair[0] ? tmp : tmp - ((pair[0] < 0) ^ (pair[1] < 0));
               break;
@@ -3536,7 +3541,7 @@ namespace awkward {
               }
               // Forth (gforth, at least) does modulo; C++ does remainder.
               // This makes a difference for negative numerator or denominator.
-              pair[0] = (pair[1] + (pair[0] % pair[1])) % pair[1];
+              pair[0] = pair[1] == -1 ? 0 : (pair[1] + (pair[0] % pair[1])) % pair[1];
               break;
             }
 
@@ -3552,6 +3557,11 @@ namespace awkward {
                 return;
               }
               // See notes on division and modulo/remainder above.
+              if (two == -1) {
+                stack_buffer_[stack_depth_ - 1] = (T)(0 - (uint64_t)one);
+                stack_buffer_[stack_depth_ - 2] = 0;
+                break;
+              }
               T tmp = one / two;
               stack_buffer_[stack_depth_ - 1] =
                   tmp * two == one ? tmp : tmp - ((one < 0) ^ (two < 0));
-- 
2.43.0


From d3a3e69e67b33814b57f32a80e4bf78c601bedec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:56 +0000
Subject: [PATCH 65/79] fix: any nonzero byte read as a boolean by Forth is
 true

---
 src/libawkward/forth/ForthMachine.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 28f9a54..27149c9 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -2855,7 +2855,20 @@ namespace awkward {
               }
 
             switch (format) {
-              case READ_BOOL:    WRITE_DIRECTLY(bool, bool)
+              case READ_BOOL: {
+                // Any nonzero byte is true.
+                uint8_t* ptr = reinterpret_cast<uint8_t*>(
+                    current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->read(
+                      num_items, current_error_));
+                if (current_error_ != util::ForthError::none) {
+                  return;
+                }
+                for (int64_t i = 0;  i < num_items;  i++) {
+                  current_outputs_[(IndexTypeOf<int64_t>)out_num].get()->write_one_bool(
+                      ptr[i] != 0, byteswap);
+                }
+                break;
+              }
               case READ_INT8:    WRITE_DIRECTLY(int8_t, int8)
               case READ_INT16:   WRITE_DIRECTLY(int16_t, int16)
               case READ_INT32:   WRITE_DIRECTLY(int32_t, int32)
@@ -2875,7 +2888,7 @@ namespace awkward {
           } // end if READ_DIRECT
 
           else {
-              # define WRITE_TO_STACK(TYPE) {                                  \
+              # define WRITE_TO_STACK(TYPE, VALUE) {                                  \
                 TYPE* ptr = reinterpret_cast<TYPE*>(                           \
                     current_inputs_[(IndexTypeOf<int64_t>)in_num].get()->read( \
                         num_items * (int64_t)sizeof(TYPE), current_error_));   \
@@ -2888,7 +2901,7 @@ namespace awkward {
                     current_error_ = util::ForthError::stack_overflow;         \
                     return;                                                    \
                   }                                                            \
-                  stack_push(value);                                           \
+                  stack_push(VALUE);                                           \
                 }                                                              \
                 break;                                                         \
               }
@@ -2941,13 +2954,13 @@ namespace awkward {
               }
 
             switch (format) {
-              case READ_BOOL:    WRITE_TO_STACK(bool)
-              case READ_INT8:    WRITE_TO_STACK(int8_t)
+              case READ_BOOL:    WRITE_TO_STACK(uint8_t, value != 0)
+              case READ_INT8:    WRITE_TO_STACK(int8_t, value)
               case READ_INT16:   WRITE_TO_STACK_SWAP(int16_t, byteswap16)
               case READ_INT32:   WRITE_TO_STACK_SWAP(int32_t, byteswap32)
               case READ_INT64:   WRITE_TO_STACK_SWAP(int64_t, byteswap64)
               case READ_INTP:    WRITE_TO_STACK_SWAP_INTP(ssize_t)
-              case READ_UINT8:   WRITE_TO_STACK(uint8_t)
+              case READ_UINT8:   WRITE_TO_STACK(uint8_t, value)
               case READ_UINT16:  WRITE_TO_STACK_SWAP(uint16_t, byteswap16)
               case READ_UINT32:  WRITE_TO_STACK_SWAP(uint32_t, byteswap32)
               case READ_UINT64:  WRITE_TO_STACK_SWAP(uint64_t, byteswap64)
-- 
2.43.0


From 42769f5e461726480d1969ed41f5cf80f0279bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:56 +0000
Subject: [PATCH 66/79] fix: running out of memory for a Forth output raises an
 exception

---
 include/awkward/forth/ForthMachine.h       |   4 +-
 include/awkward/forth/ForthOutputBuffer.h  | 124 ++++++++++-----------
 src/libawkward/forth/ForthMachine.cpp      |   8 +-
 src/libawkward/forth/ForthOutputBuffer.cpp |  96 ++++++++--------
 4 files changed, 119 insertions(+), 113 deletions(-)

diff --git a/include/awkward/forth/ForthMachine.h b/include/awkward/forth/ForthMachine.h
index a3061ae..f033bb8 100644
--- a/include/awkward/forth/ForthMachine.h
+++ b/include/awkward/forth/ForthMachine.h
@@ -379,11 +379,11 @@ namespace awkward {
 
     /// @brief HERE
     void
-      write_from_stack(int64_t num, T* top) noexcept;
+      write_from_stack(int64_t num, T* top);
 
     /// @brief HERE
     void
-      write_add_from_stack(int64_t num, T* top) noexcept;
+      write_add_from_stack(int64_t num, T* top);
 
     /// @brief HERE
     void
diff --git a/include/awkward/forth/ForthOutputBuffer.h b/include/awkward/forth/ForthOutputBuffer.h
index 912d28a..26c6fcb 100644
--- a/include/awkward/forth/ForthOutputBuffer.h
+++ b/include/awkward/forth/ForthOutputBuffer.h
@@ -45,7 +45,7 @@ namespace awkward {
 
     /// @brief HERE
     virtual void
-      dup(int64_t num_times, util::ForthError& err) noexcept = 0;
+      dup(int64_t num_times, util::ForthError& err) = 0;
 
     /// @brief HERE
     virtual const std::shared_ptr<void>
@@ -77,115 +77,115 @@ namespace awkward {
 
     /// @brief HERE
     virtual void
-      write_one_bool(bool value, bool byteswap) noexcept = 0;
+      write_one_bool(bool value, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_one_int8(int8_t value, bool byteswap) noexcept = 0;
+      write_one_int8(int8_t value, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_one_int16(int16_t value, bool byteswap) noexcept = 0;
+      write_one_int16(int16_t value, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_one_int32(int32_t value, bool byteswap) noexcept = 0;
+      write_one_int32(int32_t value, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_one_int64(int64_t value, bool byteswap) noexcept = 0;
+      write_one_int64(int64_t value, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_one_intp(ssize_t value, bool byteswap) noexcept = 0;
+      write_one_intp(ssize_t value, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_one_uint8(uint8_t value, bool byteswap) noexcept = 0;
+      write_one_uint8(uint8_t value, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_one_uint16(uint16_t value, bool byteswap) noexcept = 0;
+      write_one_uint16(uint16_t value, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_one_uint32(uint32_t value, bool byteswap) noexcept = 0;
+      write_one_uint32(uint32_t value, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_one_uint64(uint64_t value, bool byteswap) noexcept = 0;
+      write_one_uint64(uint64_t value, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_one_uintp(size_t value, bool byteswap) noexcept = 0;
+      write_one_uintp(size_t value, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_one_float32(float value, bool byteswap) noexcept = 0;
+      write_one_float32(float value, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_one_float64(double value, bool byteswap) noexcept = 0;
+      write_one_float64(double value, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_bool(int64_t num_items, bool* values, bool byteswap) noexcept = 0;
+      write_bool(int64_t num_items, bool* values, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_int8(int64_t num_items, int8_t* values, bool byteswap) noexcept = 0;
+      write_int8(int64_t num_items, int8_t* values, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_int16(int64_t num_items, int16_t* values, bool byteswap) noexcept = 0;
+      write_int16(int64_t num_items, int16_t* values, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_int32(int64_t num_items, int32_t* values, bool byteswap) noexcept = 0;
+      write_int32(int64_t num_items, int32_t* values, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_int64(int64_t num_items, int64_t* values, bool byteswap) noexcept = 0;
+      write_int64(int64_t num_items, int64_t* values, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_intp(int64_t num_items, ssize_t* values, bool byteswap) noexcept = 0;
+      write_intp(int64_t num_items, ssize_t* values, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_uint8(int64_t num_items, uint8_t* values, bool byteswap) noexcept = 0;
+      write_uint8(int64_t num_items, uint8_t* values, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_uint16(int64_t num_items, uint16_t* values, bool byteswap) noexcept = 0;
+      write_uint16(int64_t num_items, uint16_t* values, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_uint32(int64_t num_items, uint32_t* values, bool byteswap) noexcept = 0;
+      write_uint32(int64_t num_items, uint32_t* values, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_uint64(int64_t num_items, uint64_t* values, bool byteswap) noexcept = 0;
+      write_uint64(int64_t num_items, uint64_t* values, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_uintp(int64_t num_items, size_t* values, bool byteswap) noexcept = 0;
+      write_uintp(int64_t num_items, size_t* values, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_float32(int64_t num_items, float* values, bool byteswap) noexcept = 0;
+      write_float32(int64_t num_items, float* values, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_float64(int64_t num_items, double* values, bool byteswap) noexcept = 0;
+      write_float64(int64_t num_items, double* values, bool byteswap) = 0;
 
     /// @brief HERE
     virtual void
-      write_add_int32(int32_t value) noexcept = 0;
+      write_add_int32(int32_t value) = 0;
 
     /// @brief HERE
     virtual void
-      write_add_int64(int64_t value) noexcept = 0;
+      write_add_int64(int64_t value) = 0;
 
   protected:
     int64_t length_;
@@ -199,7 +199,7 @@ namespace awkward {
     ForthOutputBufferOf(int64_t initial, double resize);
 
     void
-      dup(int64_t num_times, util::ForthError& err) noexcept override;
+      dup(int64_t num_times, util::ForthError& err) override;
 
     const std::shared_ptr<void>
       ptr() const noexcept override;
@@ -223,88 +223,88 @@ namespace awkward {
       toIndex64() const override;
 
     void
-      write_one_bool(bool value, bool byteswap) noexcept override;
+      write_one_bool(bool value, bool byteswap) override;
 
     void
-      write_one_int8(int8_t value, bool byteswap) noexcept override;
+      write_one_int8(int8_t value, bool byteswap) override;
 
     void
-      write_one_int16(int16_t value, bool byteswap) noexcept override;
+      write_one_int16(int16_t value, bool byteswap) override;
 
     void
-      write_one_int32(int32_t value, bool byteswap) noexcept override;
+      write_one_int32(int32_t value, bool byteswap) override;
 
     void
-      write_one_int64(int64_t value, bool byteswap) noexcept override;
+      write_one_int64(int64_t value, bool byteswap) override;
 
     void
-      write_one_intp(ssize_t value, bool byteswap) noexcept override;
+      write_one_intp(ssize_t value, bool byteswap) override;
 
     void
-      write_one_uint8(uint8_t value, bool byteswap) noexcept override;
+      write_one_uint8(uint8_t value, bool byteswap) override;
 
     void
-      write_one_uint16(uint16_t value, bool byteswap) noexcept override;
+      write_one_uint16(uint16_t value, bool byteswap) override;
 
     void
-      write_one_uint32(uint32_t value, bool byteswap) noexcept override;
+      write_one_uint32(uint32_t value, bool byteswap) override;
 
     void
-      write_one_uint64(uint64_t value, bool byteswap) noexcept override;
+      write_one_uint64(uint64_t value, bool byteswap) override;
 
     void
-      write_one_uintp(size_t value, bool byteswap) noexcept override;
+      write_one_uintp(size_t value, bool byteswap) override;
 
     void
-      write_one_float32(float value, bool byteswap) noexcept override;
+      write_one_float32(float value, bool byteswap) override;
 
     void
-      write_one_float64(double value, bool byteswap) noexcept override;
+      write_one_float64(double value, bool byteswap) override;
 
     void
-      write_bool(int64_t num_items, bool* values, bool byteswap) noexcept override;
+      write_bool(int64_t num_items, bool* values, bool byteswap) override;
 
     void
-      write_int8(int64_t num_items, int8_t* values, bool byteswap) noexcept override;
+      write_int8(int64_t num_items, int8_t* values, bool byteswap) override;
 
     void
-      write_int16(int64_t num_items, int16_t* values, bool byteswap) noexcept override;
+      write_int16(int64_t num_items, int16_t* values, bool byteswap) override;
 
     void
-      write_int32(int64_t num_items, int32_t* values, bool byteswap) noexcept override;
+      write_int32(int64_t num_items, int32_t* values, bool byteswap) override;
 
     void
-      write_int64(int64_t num_items, int64_t* values, bool byteswap) noexcept override;
+      write_int64(int64_t num_items, int64_t* values, bool byteswap) override;
 
     void
-      write_intp(int64_t num_items, ssize_t* values, bool byteswap) noexcept override;
+      write_intp(int64_t num_items, ssize_t* values, bool byteswap) override;
 
     void
-      write_uint8(int64_t num_items, uint8_t* values, bool byteswap) noexcept override;
+      write_uint8(int64_t num_items, uint8_t* values, bool byteswap) override;
 
     void
-      write_uint16(int64_t num_items, uint16_t* values, bool byteswap) noexcept override;
+      write_uint16(int64_t num_items, uint16_t* values, bool byteswap) override;
 
     void
-      write_uint32(int64_t num_items, uint32_t* values, bool byteswap) noexcept override;
+      write_uint32(int64_t num_items, uint32_t* values, bool byteswap) override;
 
     void
-      write_uint64(int64_t num_items, uint64_t* values, bool byteswap) noexcept override;
+      write_uint64(int64_t num_items, uint64_t* values, bool byteswap) override;
 
     void
-      write_uintp(int64_t num_items, size_t* values, bool byteswap) noexcept override;
+      write_uintp(int64_t num_items, size_t* values, bool byteswap) override;
 
     void
-      write_float32(int64_t num_items, float* values, bool byteswap) noexcept override;
+      write_float32(int64_t num_items, float* values, bool byteswap) override;
 
     void
-      write_float64(int64_t num_items, double* values, bool byteswap) noexcept override;
+      write_float64(int64_t num_items, double* values, bool byteswap) override;
 
     void
-      write_add_int32(int32_t value) noexcept override;
+      write_add_int32(int32_t value) override;
 
     void
-      write_add_int64(int64_t value) noexcept override;
+      write_add_int64(int64_t value) override;
 
   private:
 
@@ -314,15 +314,15 @@ namespace awkward {
 
     /// @brief HERE
     template <typename IN>
-    inline void write_one(IN value) noexcept {
+    inline void write_one(IN value) {
+      maybe_resize(length_ + 1);
+      ptr_.get()[length_] = (OUT)value;
       length_++;
-      maybe_resize(length_);
-      ptr_.get()[length_ - 1] = (OUT)value;
     }
 
     /// @brief HERE
     template <typename IN>
-    inline void write_copy(int64_t num_items, const IN* values) noexcept {
+    inline void write_copy(int64_t num_items, const IN* values) {
       int64_t next = length_ + num_items;
       maybe_resize(next);
       for (int64_t i = 0;  i < num_items;  i++) {
diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index 27149c9..a7d8403 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -3832,25 +3832,25 @@ namespace awkward {
 
   template <>
   void
-  ForthMachineOf<int32_t, int32_t>::write_from_stack(int64_t num, int32_t* top) noexcept {
+  ForthMachineOf<int32_t, int32_t>::write_from_stack(int64_t num, int32_t* top) {
     current_outputs_[(IndexTypeOf<int64_t>)num].get()->write_one_int32(*top, false);
   }
 
   template <>
   void
-  ForthMachineOf<int64_t, int32_t>::write_from_stack(int64_t num, int64_t* top) noexcept {
+  ForthMachineOf<int64_t, int32_t>::write_from_stack(int64_t num, int64_t* top) {
     current_outputs_[(IndexTypeOf<int64_t>)num].get()->write_one_int64(*top, false);
   }
 
   template <>
   void
-  ForthMachineOf<int32_t, int32_t>::write_add_from_stack(int64_t num, int32_t* top) noexcept {
+  ForthMachineOf<int32_t, int32_t>::write_add_from_stack(int64_t num, int32_t* top) {
     current_outputs_[(IndexTypeOf<int64_t>)num].get()->write_add_int32(*top);
   }
 
   template <>
   void
-  ForthMachineOf<int64_t, int32_t>::write_add_from_stack(int64_t num, int64_t* top) noexcept {
+  ForthMachineOf<int64_t, int32_t>::write_add_from_stack(int64_t num, int64_t* top) {
     current_outputs_[(IndexTypeOf<int64_t>)num].get()->write_add_int64(*top);
   }
 
diff --git a/src/libawkward/forth/ForthOutputBuffer.cpp b/src/libawkward/forth/ForthOutputBuffer.cpp
index cd216b1..e47c489 100644
--- a/src/libawkward/forth/ForthOutputBuffer.cpp
+++ b/src/libawkward/forth/ForthOutputBuffer.cpp
@@ -89,11 +89,14 @@ namespace awkward {
 
   template <typename OUT>
   void
-  ForthOutputBufferOf<OUT>::dup(int64_t num_times, util::ForthError& err) noexcept {
+  ForthOutputBufferOf<OUT>::dup(int64_t num_times, util::ForthError& err) {
     if (length_ == 0) {
       err = util::ForthError::rewind_beyond;
     }
     else if (num_times > 0) {
+      if (num_times > kMaxInt64 / (int64_t)sizeof(OUT) - length_) {
+        throw std::bad_alloc();
+      }
       int64_t next = length_ + num_times;
       maybe_resize(next);
       OUT value = ptr_.get()[length_ - 1];
@@ -236,19 +239,19 @@ namespace awkward {
 
   template <typename OUT>
   void
-  ForthOutputBufferOf<OUT>::write_one_bool(bool value, bool byteswap) noexcept {
+  ForthOutputBufferOf<OUT>::write_one_bool(bool value, bool byteswap) {
     write_one(value);
   }
 
   template <typename OUT>
   void
-  ForthOutputBufferOf<OUT>::write_one_int8(int8_t value, bool byteswap) noexcept {
+  ForthOutputBufferOf<OUT>::write_one_int8(int8_t value, bool byteswap) {
     write_one(value);
   }
 
   template <typename OUT>
   void
-  ForthOutputBufferOf<OUT>::write_one_int16(int16_t value, bool byteswap) noexcept {
+  ForthOutputBufferOf<OUT>::write_one_int16(int16_t value, bool byteswap) {
     if (byteswap) {
       byteswap16(1, &value);
     }
@@ -257,7 +260,7 @@ namespace awkward {
 
   template <typename OUT>
   void
-  ForthOutputBufferOf<OUT>::write_one_int32(int32_t value, bool byteswap) noexcept {
+  ForthOutputBufferOf<OUT>::write_one_int32(int32_t value, bool byteswap) {
     if (byteswap) {
       byteswap32(1, &value);
     }
@@ -266,7 +269,7 @@ namespace awkward {
 
   template <typename OUT>
   void
-  ForthOutputBufferOf<OUT>::write_one_int64(int64_t value, bool byteswap) noexcept {
+  ForthOutputBufferOf<OUT>::write_one_int64(int64_t value, bool byteswap) {
     if (byteswap) {
       byteswap64(1, &value);
     }
@@ -275,7 +278,7 @@ namespace awkward {
 
   template <typename OUT>
   void
-  ForthOutputBufferOf<OUT>::write_one_intp(ssize_t value, bool byteswap) noexcept {
+  ForthOutputBufferOf<OUT>::write_one_intp(ssize_t value, bool byteswap) {
     if (byteswap) {
       if (sizeof(ssize_t) == 4) {
         byteswap32(1, &value);
@@ -289,13 +292,13 @@ namespace awkward {
 
   template <typename OUT>
   void
-  ForthOutputBufferOf<OUT>::write_one_uint8(uint8_t value, bool byteswap) noexcept {
+  ForthOutputBufferOf<OUT>::write_one_uint8(uint8_t value, bool byteswap) {
     write_one(value);
   }
 
   template <typename OUT>
   void
-  ForthOutputBufferOf<OUT>::write_one_uint16(uint16_t value, bool byteswap) noexcept {
+  ForthOutputBufferOf<OUT>::write_one_uint16(uint16_t value, bool byteswap) {
     if (byteswap) {
       byteswap16(1, &value);
     }
@@ -304,7 +307,7 @@ namespace awkward {
 
   template <typename OUT>
   void
-  ForthOutputBufferOf<OUT>::write_one_uint32(uint32_t value, bool byteswap) noexcept {
+  ForthOutputBufferOf<OUT>::write_one_uint32(uint32_t value, bool byteswap) {
     if (byteswap) {
       byteswap32(1, &value);
     }
@@ -313,7 +316,7 @@ namespace awkward {
 
   template <typename OUT>
   void
-  ForthOutputBufferOf<OUT>::write_one_uint64(uint64_t value, bool byteswap) noexcept {
+  ForthOutputBufferOf<OUT>::write_one_uint64(uint64_t value, bool byteswap) {
     if (byteswap) {
       byteswap64(1, &value);
     }
@@ -322,7 +325,7 @@ namespace awkward {
 
   template <typename OUT>
   void
-  ForthOutputBufferOf<OUT>::write_one_uintp(size_t value, bool byteswap) noexcept {
+  ForthOutputBufferOf<OUT>::write_one_uintp(size_t value, bool byteswap) {
     if (byteswap) {
       if (sizeof(size_t) == 4) {
         byteswap32(1, &value);
@@ -336,7 +339,7 @@ namespace awkward {
 
   template <typename OUT>
   void
-  ForthOutputBufferOf<OUT>::write_one_float32(float value, bool byteswap) noexcept {
+  ForthOutputBufferOf<OUT>::write_one_float32(float value, bool byteswap) {
     if (byteswap) {
       byteswap32(1, &value);
     }
@@ -345,7 +348,7 @@ namespace awkward {
 
   template <typename OUT>
   void
-  ForthOutputBufferOf<OUT>::write_one_float64(double value, bool byteswap) noexcept {
+  ForthOutputBufferOf<OUT>::write_one_float64(double value, bool byteswap) {
     if (byteswap) {
       byteswap64(1, &value);
     }
@@ -356,7 +359,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<OUT>::write_bool(int64_t num_items,
                                        bool* values,
-                                       bool byteswap) noexcept {
+                                       bool byteswap) {
     write_copy(num_items, values);
   }
 
@@ -364,7 +367,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<OUT>::write_int8(int64_t num_items,
                                        int8_t* values,
-                                       bool byteswap) noexcept {
+                                       bool byteswap) {
     write_copy(num_items, values);
   }
 
@@ -372,7 +375,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<OUT>::write_int16(int64_t num_items,
                                         int16_t* values,
-                                        bool byteswap) noexcept {
+                                        bool byteswap) {
     if (byteswap) {
       for (int64_t i = 0;  i < num_items;  i++) {
         int16_t value = values[i];
@@ -389,7 +392,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<OUT>::write_int32(int64_t num_items,
                                         int32_t* values,
-                                        bool byteswap) noexcept {
+                                        bool byteswap) {
     if (byteswap) {
       for (int64_t i = 0;  i < num_items;  i++) {
         int32_t value = values[i];
@@ -406,7 +409,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<OUT>::write_int64(int64_t num_items,
                                         int64_t* values,
-                                        bool byteswap) noexcept {
+                                        bool byteswap) {
     if (byteswap) {
       for (int64_t i = 0;  i < num_items;  i++) {
         int64_t value = values[i];
@@ -423,7 +426,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<OUT>::write_intp(int64_t num_items,
                                        ssize_t* values,
-                                       bool byteswap) noexcept {
+                                       bool byteswap) {
     if (byteswap) {
       for (int64_t i = 0;  i < num_items;  i++) {
         ssize_t value = values[i];
@@ -445,7 +448,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<OUT>::write_uint8(int64_t num_items,
                                         uint8_t* values,
-                                        bool byteswap) noexcept {
+                                        bool byteswap) {
     write_copy(num_items, values);
   }
 
@@ -453,7 +456,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<OUT>::write_uint16(int64_t num_items,
                                          uint16_t* values,
-                                         bool byteswap) noexcept {
+                                         bool byteswap) {
     if (byteswap) {
       for (int64_t i = 0;  i < num_items;  i++) {
         uint16_t value = values[i];
@@ -470,7 +473,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<OUT>::write_uint32(int64_t num_items,
                                          uint32_t* values,
-                                         bool byteswap) noexcept {
+                                         bool byteswap) {
     if (byteswap) {
       for (int64_t i = 0;  i < num_items;  i++) {
         uint32_t value = values[i];
@@ -487,7 +490,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<OUT>::write_uint64(int64_t num_items,
                                          uint64_t* values,
-                                         bool byteswap) noexcept {
+                                         bool byteswap) {
     if (byteswap) {
       for (int64_t i = 0;  i < num_items;  i++) {
         uint64_t value = values[i];
@@ -504,7 +507,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<OUT>::write_uintp(int64_t num_items,
                                         size_t* values,
-                                        bool byteswap) noexcept {
+                                        bool byteswap) {
     if (byteswap) {
       for (int64_t i = 0;  i < num_items;  i++) {
         size_t value = values[i];
@@ -526,7 +529,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<OUT>::write_float32(int64_t num_items,
                                           float* values,
-                                          bool byteswap) noexcept {
+                                          bool byteswap) {
     if (byteswap) {
       for (int64_t i = 0;  i < num_items;  i++) {
         float value = values[i];
@@ -543,7 +546,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<OUT>::write_float64(int64_t num_items,
                                           double* values,
-                                          bool byteswap) noexcept {
+                                          bool byteswap) {
     if (byteswap) {
       for (int64_t i = 0;  i < num_items;  i++) {
         double value = values[i];
@@ -560,7 +563,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<bool>::write_bool(int64_t num_items,
                                         bool* values,
-                                        bool byteswap) noexcept {
+                                        bool byteswap) {
     int64_t next = length_ + num_items;
     maybe_resize(next);
     std::memcpy(&ptr_.get()[length_], values, sizeof(bool) * (size_t)num_items);
@@ -571,7 +574,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<int8_t>::write_int8(int64_t num_items,
                                           int8_t* values,
-                                          bool byteswap) noexcept {
+                                          bool byteswap) {
     int64_t next = length_ + num_items;
     maybe_resize(next);
     std::memcpy(&ptr_.get()[length_], values, sizeof(int8_t) * (size_t)num_items);
@@ -582,7 +585,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<int16_t>::write_int16(int64_t num_items,
                                             int16_t* values,
-                                            bool byteswap) noexcept {
+                                            bool byteswap) {
     int64_t next = length_ + num_items;
     maybe_resize(next);
     std::memcpy(&ptr_.get()[length_], values, sizeof(int16_t) * (size_t)num_items);
@@ -596,7 +599,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<int32_t>::write_int32(int64_t num_items,
                                             int32_t* values,
-                                            bool byteswap) noexcept {
+                                            bool byteswap) {
     int64_t next = length_ + num_items;
     maybe_resize(next);
     std::memcpy(&ptr_.get()[length_], values, sizeof(int32_t) * (size_t)num_items);
@@ -610,7 +613,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<int64_t>::write_int64(int64_t num_items,
                                             int64_t* values,
-                                            bool byteswap) noexcept {
+                                            bool byteswap) {
     int64_t next = length_ + num_items;
     maybe_resize(next);
     std::memcpy(&ptr_.get()[length_], values, sizeof(int64_t) * (size_t)num_items);
@@ -624,7 +627,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<uint8_t>::write_uint8(int64_t num_items,
                                             uint8_t* values,
-                                            bool byteswap) noexcept {
+                                            bool byteswap) {
     int64_t next = length_ + num_items;
     maybe_resize(next);
     std::memcpy(&ptr_.get()[length_], values, sizeof(uint8_t) * (size_t)num_items);
@@ -635,7 +638,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<uint16_t>::write_uint16(int64_t num_items,
                                               uint16_t* values,
-                                              bool byteswap) noexcept {
+                                              bool byteswap) {
     int64_t next = length_ + num_items;
     maybe_resize(next);
     std::memcpy(&ptr_.get()[length_], values, sizeof(uint16_t) * (size_t)num_items);
@@ -649,7 +652,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<uint32_t>::write_uint32(int64_t num_items,
                                               uint32_t* values,
-                                              bool byteswap) noexcept {
+                                              bool byteswap) {
     int64_t next = length_ + num_items;
     maybe_resize(next);
     std::memcpy(&ptr_.get()[length_], values, sizeof(uint32_t) * (size_t)num_items);
@@ -663,7 +666,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<uint64_t>::write_uint64(int64_t num_items,
                                               uint64_t* values,
-                                              bool byteswap) noexcept {
+                                              bool byteswap) {
     int64_t next = length_ + num_items;
     maybe_resize(next);
     std::memcpy(&ptr_.get()[length_], values, sizeof(uint64_t) * (size_t)num_items);
@@ -677,7 +680,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<float>::write_float32(int64_t num_items,
                                             float* values,
-                                            bool byteswap) noexcept {
+                                            bool byteswap) {
     int64_t next = length_ + num_items;
     maybe_resize(next);
     std::memcpy(&ptr_.get()[length_], values, sizeof(float) * (size_t)num_items);
@@ -691,7 +694,7 @@ namespace awkward {
   void
   ForthOutputBufferOf<double>::write_float64(int64_t num_items,
                                              double* values,
-                                             bool byteswap) noexcept {
+                                             bool byteswap) {
     int64_t next = length_ + num_items;
     maybe_resize(next);
     std::memcpy(&ptr_.get()[length_], values, sizeof(double) * (size_t)num_items);
@@ -703,26 +706,26 @@ namespace awkward {
 
   template <typename OUT>
   void
-  ForthOutputBufferOf<OUT>::write_add_int32(int32_t value) noexcept {
+  ForthOutputBufferOf<OUT>::write_add_int32(int32_t value) {
     OUT previous = 0;
     if (length_ != 0) {
       previous = ptr_.get()[length_ - 1];
     }
+    maybe_resize(length_ + 1);
+    ptr_.get()[length_] = previous + (OUT)value;
     length_++;
-    maybe_resize(length_);
-    ptr_.get()[length_ - 1] = previous + (OUT)value;
   }
 
   template <typename OUT>
   void
-  ForthOutputBufferOf<OUT>::write_add_int64(int64_t value) noexcept {
+  ForthOutputBufferOf<OUT>::write_add_int64(int64_t value) {
     OUT previous = 0;
     if (length_ != 0) {
       previous = ptr_.get()[length_ - 1];
     }
+    maybe_resize(length_ + 1);
+    ptr_.get()[length_] = previous + (OUT)value;
     length_++;
-    maybe_resize(length_);
-    ptr_.get()[length_ - 1] = previous + (OUT)value;
   }
 
   template <typename OUT>
@@ -731,7 +734,10 @@ namespace awkward {
     if (next > reserved_) {
       int64_t reservation = reserved_;
       while (next > reservation) {
-        reservation = (int64_t)std::ceil(reservation * resize_);
+        double larger = std::ceil(reservation * resize_);
+        // Enough for what is needed now if the resize factor doesn't lead there.
+        reservation = larger > (double)reservation  &&  larger < (double)kMaxInt64 / sizeof(OUT)
+                        ? (int64_t)larger : next;
       }
       std::shared_ptr<OUT> new_buffer = std::shared_ptr<OUT>(new OUT[reservation],
                                                              kernel::array_deleter<OUT>());
-- 
2.43.0


From 55c69c25a617e89362d42332793edb483804f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:35 +0000
Subject: [PATCH 67/79] fix: inputs of Forth machines stay valid while they are
 used and have to be contiguous

---
 src/python/forth.cpp | 65 +++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 28 deletions(-)

diff --git a/src/python/forth.cpp b/src/python/forth.cpp
index ae77a4d..ea023d6 100644
--- a/src/python/forth.cpp
+++ b/src/python/forth.cpp
@@ -10,6 +10,41 @@
 #include "awkward/python/content.h"
 #include "awkward/python/forth.h"
 
+template <typename T, typename I>
+std::map<std::string, std::shared_ptr<ak::ForthInputBuffer>>
+forth_inputs(const ak::ForthMachineOf<T, I>& self, const py::dict& inputs) {
+  std::map<std::string, std::shared_ptr<ak::ForthInputBuffer>> out;
+  for (auto pair : inputs) {
+    std::string name = pair.first.cast<std::string>();
+    py::buffer obj = pair.second.cast<py::buffer>();
+    // As long as the machine uses the memory, the buffer must not be released:
+    // that's what prevents its owner from moving or freeing it.
+    auto info = std::make_shared<py::buffer_info>(
+        obj.request(self.input_must_be_writable(name)));
+    int64_t length = info.get()->itemsize;
+    for (ssize_t i = info.get()->ndim - 1;  i >= 0;  i--) {
+      if (info.get()->shape[(size_t)i] != 1  &&
+          info.get()->strides[(size_t)i] != (ssize_t)length) {
+        bool empty = false;
+        for (auto x : info.get()->shape) {
+          empty = empty  ||  x == 0;
+        }
+        if (!empty) {
+          throw std::invalid_argument(
+            std::string("AwkwardForth input is not contiguous in memory: ")
+            + name + FILENAME(__LINE__));
+        }
+      }
+      length *= info.get()->shape[(size_t)i];
+    }
+    std::shared_ptr<void> ptr(info.get()->ptr, [info](void*) mutable -> void {
+      info.reset();
+    });
+    out[name] = std::make_shared<ak::ForthInputBuffer>(ptr, 0, length);
+  }
+  return out;
+}
+
 template <typename T, typename I>
 py::object maybe_throw(const ak::ForthMachineOf<T, I>& self,
                        ak::util::ForthError err,
@@ -223,20 +258,7 @@ make_ForthMachineOf(const py::handle& m, const std::string& name) {
           .def("reset", &ak::ForthMachineOf<T, I>::reset)
           .def("begin", [](ak::ForthMachineOf<T, I>& self,
                            const py::dict& inputs) -> void {
-              std::map<std::string, std::shared_ptr<ak::ForthInputBuffer>> ins;
-              for (auto pair : inputs) {
-                std::string name = pair.first.cast<std::string>();
-                py::buffer obj = pair.second.cast<py::buffer>();
-                py::buffer_info info = obj.request(self.input_must_be_writable(name));
-                int64_t length = info.itemsize;
-                for (auto x : info.shape) {
-                  length *= x;
-                }
-                std::shared_ptr<void> ptr = std::shared_ptr<uint8_t>(
-                    reinterpret_cast<uint8_t*>(info.ptr), pyobject_deleter<uint8_t>(obj.ptr()));
-                ins[name] = std::make_shared<ak::ForthInputBuffer>(ptr, 0, length);
-              }
-              self.begin(ins);
+              self.begin(forth_inputs<T, I>(self, inputs));
           }, py::arg("inputs") = py::dict())
           .def("step", [](ak::ForthMachineOf<T, I>& self,
                           bool raise_user_halt,
@@ -284,20 +306,7 @@ make_ForthMachineOf(const py::handle& m, const std::string& name) {
                          bool raise_rewind_beyond,
                          bool raise_division_by_zero,
                          bool raise_varint_too_big) -> py::object {
-              std::map<std::string, std::shared_ptr<ak::ForthInputBuffer>> ins;
-              for (auto pair : inputs) {
-                std::string name = pair.first.cast<std::string>();
-                py::buffer obj = pair.second.cast<py::buffer>();
-                py::buffer_info info = obj.request(self.input_must_be_writable(name));
-                int64_t length = info.itemsize;
-                for (auto x : info.shape) {
-                  length *= x;
-                }
-                std::shared_ptr<void> ptr = std::shared_ptr<uint8_t>(
-                    reinterpret_cast<uint8_t*>(info.ptr), pyobject_deleter<uint8_t>(obj.ptr()));
-                ins[name] = std::make_shared<ak::ForthInputBuffer>(ptr, 0, length);
-              }
-              self.begin(ins);
+              self.begin(forth_inputs<T, I>(self, inputs));
               py::gil_scoped_release release;
               ak::util::ForthError err = self.resume();
               py::gil_scoped_acquire acquire;
-- 
2.43.0


From 9f2214573929bd15762272feadb9e98b60f06679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:35 +0000
Subject: [PATCH 68/79] fix: Forth machines don't look outside of their call
 stack when it is empty

---
 include/awkward/forth/ForthMachine.h  | 2 +-
 src/libawkward/forth/ForthMachine.cpp | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/awkward/forth/ForthMachine.h b/include/awkward/forth/ForthMachine.h
index f033bb8..d0ad985 100644
--- a/include/awkward/forth/ForthMachine.h
+++ b/include/awkward/forth/ForthMachine.h
@@ -329,7 +329,7 @@ namespace awkward {
     /// @brief HERE
     inline bool
       is_segment_done() const noexcept {
-      return !(bytecodes_pointer_where() < (
+      return recursion_current_depth_ == 0  ||  !(bytecodes_pointer_where() < (
                    bytecodes_offsets_[(IndexTypeOf<int64_t>)bytecodes_pointer_which() + 1] -
                    bytecodes_offsets_[(IndexTypeOf<int64_t>)bytecodes_pointer_which()]
                ));
diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index a7d8403..f2747dc 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -248,6 +248,10 @@ namespace awkward {
     , count_writes_(0)
     , count_nanoseconds_(0)
   {
+    if (recursion_max_depth < 1) {
+      throw std::invalid_argument(
+        std::string("AwkwardForth recursion depth must be at least 1") + FILENAME(__LINE__));
+    }
     std::vector<std::string> tokenized;
     std::vector<std::pair<int64_t, int64_t>> linecol;
     tokenize(tokenized, linecol);
-- 
2.43.0


From 5df5f45a665b0ac7546eb9fd5aa3986e43605f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:25 +0000
Subject: [PATCH 69/79] fix: Forth modulo of large integers does not overflow

---
 src/libawkward/forth/ForthMachine.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libawkward/forth/ForthMachine.cpp b/src/libawkward/forth/ForthMachine.cpp
index f2747dc..7588511 100644
--- a/src/libawkward/forth/ForthMachine.cpp
+++ b/src/libawkward/forth/ForthMachine.cpp
@@ -3558,7 +3558,8 @@ namespace awkward {
               }
               // Forth (gforth, at least) does modulo; C++ does remainder.
               // This makes a difference for negative numerator or denominator.
-              pair[0] = pair[1] == -1 ? 0 : (pair[1] + (pair[0] % pair[1])) % pair[1];
+              T rem = pair[1] == -1 ? 0 : pair[0] % pair[1];
+              pair[0] = rem != 0  &&  (rem < 0) != (pair[1] < 0) ? rem + pair[1] : rem;
               break;
             }
 
@@ -3582,8 +3583,9 @@ namespace awkward {
               T tmp = one / two;
               stack_buffer_[stack_depth_ - 1] =
                   tmp * two == one ? tmp : tmp - ((one < 0) ^ (two < 0));
+              T rem = one % two;
               stack_buffer_[stack_depth_ - 2] =
-                  (two + (one % two)) % two;
+                  rem != 0  &&  (rem < 0) != (two < 0) ? rem + two : rem;
               break;
             }
 
-- 
2.43.0


From 6502faa2cb4461c7fdc7010ada73cee13b9c2c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:29 +0000
Subject: [PATCH 70/79] fix: LayoutBuilder: nested lists in records, and
 commands at the wrong place raise

Whether begin_list and end_list are expected was tracked twice: by the
virtual machine, and by flags in the form builders, which lost track in
records of lists and let misplaced commands pass (or read an empty
vector). Let the virtual machine decide, and report all of its errors.
---
 .../awkward/layoutbuilder/EmptyArrayBuilder.h    |  4 ++++
 .../layoutbuilder/EmptyArrayBuilder.cpp          |  6 ++++--
 src/libawkward/layoutbuilder/LayoutBuilder.cpp   | 16 +++++++++-------
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/awkward/layoutbuilder/EmptyArrayBuilder.h b/include/awkward/layoutbuilder/EmptyArrayBuilder.h
index 42014d0..ad5aa5e 100644
--- a/include/awkward/layoutbuilder/EmptyArrayBuilder.h
+++ b/include/awkward/layoutbuilder/EmptyArrayBuilder.h
@@ -107,6 +107,10 @@ namespace awkward {
 
     /// @brief An empty command.
     std::string vm_empty_command_;
+
+    /// @brief Words that stop the machine: there are no data to accept.
+    std::string vm_func_name_;
+
     /// @brief An error message.
     std::string vm_error_;
   };
diff --git a/src/libawkward/layoutbuilder/EmptyArrayBuilder.cpp b/src/libawkward/layoutbuilder/EmptyArrayBuilder.cpp
index efc5cca..0b24c9a 100644
--- a/src/libawkward/layoutbuilder/EmptyArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/EmptyArrayBuilder.cpp
@@ -16,7 +16,9 @@ namespace awkward {
         + std::to_string(LayoutBuilder::next_id()))
         : form.get()->form_key()),
       vm_empty_command_("( This does nothing. )\n"),
-      vm_error_("s\" EmptyArray Builder error\"") { }
+      vm_func_name_(std::to_string(LayoutBuilder::next_error_id())
+        + std::string(" err ! err @ halt")),
+      vm_error_("s\" EmptyArray Builder does not accept any data\"\n") { }
 
   const std::string
   EmptyArrayBuilder::classname() const {
@@ -51,7 +53,7 @@ namespace awkward {
 
   const std::string
   EmptyArrayBuilder::vm_func_name() const {
-    return vm_empty_command_;
+    return vm_func_name_;
   }
 
   const std::string
diff --git a/src/libawkward/layoutbuilder/LayoutBuilder.cpp b/src/libawkward/layoutbuilder/LayoutBuilder.cpp
index 0a837c8..a1bf9cb 100644
--- a/src/libawkward/layoutbuilder/LayoutBuilder.cpp
+++ b/src/libawkward/layoutbuilder/LayoutBuilder.cpp
@@ -278,9 +278,11 @@ namespace awkward {
 
   void
   LayoutBuilder::resume() const {
-    if (vm_.get()->resume() == util::ForthError::user_halt) {
+    util::ForthError err = vm_.get()->resume();
+    if (err == util::ForthError::user_halt) {
       throw std::invalid_argument(vm_.get()->string_at(vm_.get()->stack().back()));
     }
+    vm_.get()->maybe_throw(err, ignore_);
   }
 
   void
@@ -480,38 +482,38 @@ namespace awkward {
 
   void
   LayoutBuilder::begin_list() {
-    builder_.get()->begin_list(this);
+    add_begin_list();
   }
 
   void
   LayoutBuilder::add_begin_list() {
     vm_.get()->stack_push(static_cast<utype>(state::begin_list));
-    vm_.get()->resume();
+    resume();
   }
 
   void
   LayoutBuilder::end_list() {
-    builder_.get()->end_list(this);
+    add_end_list();
   }
 
   void
   LayoutBuilder::add_end_list() {
     vm_.get()->stack_push(static_cast<utype>(state::end_list));
-    vm_.get()->resume();
+    resume();
   }
 
   void
   LayoutBuilder::index(int64_t x) {
     vm_.get()->stack_push((int32_t)x);
     vm_.get()->stack_push(static_cast<utype>(state::index));
-    vm_.get()->resume();
+    resume();
   }
 
   void
   LayoutBuilder::tag(int8_t x) {
     set_data<int8_t>(x);
     vm_.get()->stack_push(static_cast<utype>(state::tag));
-    vm_.get()->resume();
+    resume();
   }
 
 }
-- 
2.43.0


From b6d6f6d592982ea1dbdecdf559139d423569243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:29 +0000
Subject: [PATCH 71/79] fix: the LayoutBuilder's input buffer can hold any
 value that is passed through it

---
 src/libawkward/layoutbuilder/LayoutBuilder.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/libawkward/layoutbuilder/LayoutBuilder.cpp b/src/libawkward/layoutbuilder/LayoutBuilder.cpp
index a1bf9cb..610c4dd 100644
--- a/src/libawkward/layoutbuilder/LayoutBuilder.cpp
+++ b/src/libawkward/layoutbuilder/LayoutBuilder.cpp
@@ -2,6 +2,8 @@
 
 #define FILENAME(line) FILENAME_FOR_EXCEPTIONS("src/libawkward/layoutbuilder/LayoutBuilder.cpp", line)
 
+#include <algorithm>
+
 #include "awkward/layoutbuilder/LayoutBuilder.h"
 #include "awkward/builder/ArrayBuilderOptions.h"
 #include "awkward/type/Type.h"
@@ -160,7 +162,7 @@ namespace awkward {
   LayoutBuilder::LayoutBuilder(const FormPtr& form,
                                        const ArrayBuilderOptions& options,
                                        bool vm_init)
-    : initial_(options.initial()),
+    : initial_(std::max(options.initial(), (int64_t)sizeof(std::complex<double>))),
       length_(8),
       builder_(formBuilderFromA(form)),
       vm_(nullptr),
@@ -247,9 +249,9 @@ namespace awkward {
       vm_ = vm;
 
       std::shared_ptr<void> ptr(
-        kernel::malloc<void>(kernel::lib::cpu, 8*sizeof(uint8_t)));
+        kernel::malloc<void>(kernel::lib::cpu, initial_*(int64_t)sizeof(uint8_t)));
 
-      vm_inputs_map_[vm_input_data_] = std::make_shared<ForthInputBuffer>(ptr, 0, 8);
+      vm_inputs_map_[vm_input_data_] = std::make_shared<ForthInputBuffer>(ptr, 0, initial_);
       vm_.get()->run(vm_inputs_map_);
     }
     else {
-- 
2.43.0


From 5d056ad57c05c4da6cefd62d7abd90a9b6b35a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:29 +0000
Subject: [PATCH 72/79] fix: LayoutBuilder of a ListForm compiles

---
 src/libawkward/layoutbuilder/ListArrayBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libawkward/layoutbuilder/ListArrayBuilder.cpp b/src/libawkward/layoutbuilder/ListArrayBuilder.cpp
index 86efc4d..63f19b9 100644
--- a/src/libawkward/layoutbuilder/ListArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/ListArrayBuilder.cpp
@@ -62,7 +62,7 @@ namespace awkward {
       .append("0 ").append(vm_output_data_).append(" <- stack").append("\n");
 
     vm_error_.append(content_.get()->vm_error());
-    vm_error_.append("s\"ListArray Builder needs begin_list\"").append("\n");
+    vm_error_.append("s\" ListArray Builder needs begin_list\"").append("\n");
  }
 
   const std::string
-- 
2.43.0


From 1811d4f26220ae8060eebff15f0974abd1e39652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:41 +0000
Subject: [PATCH 73/79] fix: LayoutBuilder: several index nodes in one form do
 not share variables

---
 src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp      | 6 +++---
 .../layoutbuilder/IndexedOptionArrayBuilder.cpp           | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp b/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
index 1f9d572..830b66f 100644
--- a/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
@@ -38,7 +38,7 @@ namespace awkward {
       .append(index_form_to_name(form_.get()->index()))
       .append("\n")
       .append(content_.get()->vm_output())
-      .append("variable index").append("\n");
+      .append("variable ").append(vm_func_name_).append("-next").append("\n");
 
     vm_func_.append(content_.get()->vm_func())
       .append(": ").append(vm_func_name()).append("\n")
@@ -47,8 +47,8 @@ namespace awkward {
       .append("drop").append("\n")
       .append(vm_output_data_).append(" <- stack").append("\n")
       .append("else").append("\n")
-      .append("1 index +!").append("\n")
-      .append("index @ 1- ")
+      .append("1 ").append(vm_func_name_).append("-next +!").append("\n")
+      .append(vm_func_name_).append("-next @ 1- ")
       .append(vm_output_data_).append(" <- stack").append("\n")
       .append(content_.get()->vm_func_name()).append("\n")
       .append("then").append("\n")
diff --git a/src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp b/src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp
index 5ae915f..c8b6636 100644
--- a/src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp
@@ -41,13 +41,13 @@ namespace awkward {
       .append("dup ").append(std::to_string(static_cast<utype>(state::null)))
       .append(" = if").append("\n")
       .append("drop\n")
-      .append("variable null    -1 null !").append("\n")
-      .append("null @ ")
+      .append("-1 ")
       .append(vm_output_data_).append(" <- stack").append("\n")
       .append("exit\n")
       .append("else\n")
-      .append("variable index    1 index +!").append("\n")
-      .append("index @ 1- ")
+      .append("variable ").append(vm_func_name_).append("-next").append("\n")
+      .append("1 ").append(vm_func_name_).append("-next +!").append("\n")
+      .append(vm_func_name_).append("-next @ 1- ")
       .append(vm_output_data_).append(" <- stack").append("\n")
       .append(content_.get()->vm_func_name()).append("\n")
       .append("then\n")
-- 
2.43.0


From 348c1b27c4699f6fcea2a86d53defc58b7f8c2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:52 +0000
Subject: [PATCH 74/79] fix: LayoutBuilder: lists below index, mask and regular
 nodes are initialised

---
 src/libawkward/layoutbuilder/BitMaskedArrayBuilder.cpp  | 1 +
 src/libawkward/layoutbuilder/ByteMaskedArrayBuilder.cpp | 1 +
 src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp    | 1 +
 src/libawkward/layoutbuilder/RegularArrayBuilder.cpp    | 1 +
 src/libawkward/layoutbuilder/UnmaskedArrayBuilder.cpp   | 1 +
 5 files changed, 5 insertions(+)

diff --git a/src/libawkward/layoutbuilder/BitMaskedArrayBuilder.cpp b/src/libawkward/layoutbuilder/BitMaskedArrayBuilder.cpp
index aef3ced..4ea7b77 100644
--- a/src/libawkward/layoutbuilder/BitMaskedArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/BitMaskedArrayBuilder.cpp
@@ -31,6 +31,7 @@ namespace awkward {
       .append(";").append("\n");
 
     vm_output_ = content_.get()->vm_output();
+    vm_data_from_stack_ = content_.get()->vm_from_stack();
     vm_error_ = content_.get()->vm_error();
   }
 
diff --git a/src/libawkward/layoutbuilder/ByteMaskedArrayBuilder.cpp b/src/libawkward/layoutbuilder/ByteMaskedArrayBuilder.cpp
index 3f68527..2c688ba 100644
--- a/src/libawkward/layoutbuilder/ByteMaskedArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/ByteMaskedArrayBuilder.cpp
@@ -31,6 +31,7 @@ namespace awkward {
       .append(";").append("\n");
 
     vm_output_ = content_.get()->vm_output();
+    vm_data_from_stack_ = content_.get()->vm_from_stack();
     vm_error_ = content_.get()->vm_error();
   }
 
diff --git a/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp b/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
index 830b66f..ad43fc9 100644
--- a/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
@@ -54,6 +54,7 @@ namespace awkward {
       .append("then").append("\n")
       .append(";").append("\n");
 
+    vm_data_from_stack_ = content_.get()->vm_from_stack();
     vm_error_ = content_.get()->vm_error();
   }
 
diff --git a/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp b/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp
index 2f925cf..efb4152 100644
--- a/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/RegularArrayBuilder.cpp
@@ -34,6 +34,7 @@ namespace awkward {
       .append(content_.get()->vm_func_name()).append("\n")
       .append(";").append("\n");
 
+    vm_data_from_stack_ = content_.get()->vm_from_stack();
     vm_error_.append(content_.get()->vm_error());
   }
 
diff --git a/src/libawkward/layoutbuilder/UnmaskedArrayBuilder.cpp b/src/libawkward/layoutbuilder/UnmaskedArrayBuilder.cpp
index 4d2e153..e1124bf 100644
--- a/src/libawkward/layoutbuilder/UnmaskedArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/UnmaskedArrayBuilder.cpp
@@ -31,6 +31,7 @@ namespace awkward {
       .append(";").append("\n");
 
     vm_output_ = content_.get()->vm_output();
+    vm_data_from_stack_ = content_.get()->vm_from_stack();
     vm_error_.append(content_.get()->vm_error());
   }
 
-- 
2.43.0


From 50f4610f8e47fe60a1fbbba52d3c9c24b1dc83c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:32 +0000
Subject: [PATCH 75/79] fix: LayoutBuilder: snapshot of a union does not write
 beyond its buffer

There is one counter per content, not one per entry.
---
 .../layoutbuilder/UnionArrayBuilder.cpp       | 35 ++-----------------
 1 file changed, 3 insertions(+), 32 deletions(-)

diff --git a/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp b/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
index 416a5b0..3020594 100644
--- a/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
@@ -105,19 +105,8 @@ namespace awkward {
         contents.push_back(content.get()->snapshot(outputs));
       }
 
-      int64_t lentags = tags.length();
-
       if (form_.get()->index() == Index::Form::i32) {
-        Index32 current(lentags);
-        Index32 outindex(lentags);
-        struct Error err = kernel::UnionArray_regular_index<int8_t, int32_t>(
-          kernel::lib::cpu,   // DERIVE
-          outindex.data(),
-          current.data(),
-          lentags,
-          tags.data(),
-          lentags);
-        util::handle_error(err, "UnionArray", nullptr);
+        Index32 outindex = UnionArray8_32::regular_index(tags);
 
         return UnionArray8_32(Identities::none(),
                               util::Parameters(),
@@ -127,16 +116,7 @@ namespace awkward {
 
       }
       else if (form_.get()->index() == Index::Form::u32) {
-        IndexU32 current(lentags);
-        IndexU32 outindex(lentags);
-        struct Error err = kernel::UnionArray_regular_index<int8_t, uint32_t>(
-          kernel::lib::cpu,   // DERIVE
-          outindex.data(),
-          current.data(),
-          lentags,
-          tags.data(),
-          lentags);
-        util::handle_error(err, "UnionArray", nullptr);
+        IndexU32 outindex = UnionArray8_U32::regular_index(tags);
 
         return UnionArray8_U32(Identities::none(),
                                util::Parameters(),
@@ -145,16 +125,7 @@ namespace awkward {
                                contents).simplify_uniontype(false, false);
       }
       else if (form_.get()->index() == Index::Form::i64) {
-        Index64 current(lentags);
-        Index64 outindex(lentags);
-        struct Error err = kernel::UnionArray_regular_index<int8_t, int64_t>(
-          kernel::lib::cpu,   // DERIVE
-          outindex.data(),
-          current.data(),
-          lentags,
-          tags.data(),
-          lentags);
-        util::handle_error(err, "UnionArray", nullptr);
+        Index64 outindex = UnionArray8_64::regular_index(tags);
 
         return UnionArray8_64(Identities::none(),
                               util::Parameters(),
-- 
2.43.0


From de0718bd9146e13f344e8d3dc95f24e0a90e6f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:58 +0000
Subject: [PATCH 76/79] fix: LayoutBuilder: a union without a tag raises

---
 src/libawkward/layoutbuilder/UnionArrayBuilder.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp b/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
index 3020594..9b8fb6b 100644
--- a/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
@@ -79,9 +79,10 @@ namespace awkward {
 
       vm_func_.append("then").append("\n");
     }
-    vm_func_.append(std::to_string(LayoutBuilder::next_error_id()))
-    .append(" err ! err @ halt").append("\n")
-    .append("then\n;\n\n");
+    vm_func_.append("then\n")
+      .append(std::to_string(LayoutBuilder::next_error_id()))
+      .append(" err ! err @ halt").append("\n")
+      .append(";\n\n");
 
     vm_error_.append("s\" Union Array Builder error\"\n");
   }
-- 
2.43.0


From aa0151bafd15b25fe227bcdafad9ab589a03e4dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:39 +0000
Subject: [PATCH 77/79] fix: LayoutBuilder: snapshots do not include index and
 tags of incomplete entries

---
 src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp       | 6 +++---
 src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp | 6 +++---
 src/libawkward/layoutbuilder/UnionArrayBuilder.cpp         | 6 ++++--
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp b/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
index ad43fc9..6dde923 100644
--- a/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
@@ -47,10 +47,10 @@ namespace awkward {
       .append("drop").append("\n")
       .append(vm_output_data_).append(" <- stack").append("\n")
       .append("else").append("\n")
-      .append("1 ").append(vm_func_name_).append("-next +!").append("\n")
-      .append(vm_func_name_).append("-next @ 1- ")
-      .append(vm_output_data_).append(" <- stack").append("\n")
       .append(content_.get()->vm_func_name()).append("\n")
+      .append(vm_func_name_).append("-next @ ")
+      .append(vm_output_data_).append(" <- stack").append("\n")
+      .append("1 ").append(vm_func_name_).append("-next +!").append("\n")
       .append("then").append("\n")
       .append(";").append("\n");
 
diff --git a/src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp b/src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp
index c8b6636..338d711 100644
--- a/src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/IndexedOptionArrayBuilder.cpp
@@ -46,10 +46,10 @@ namespace awkward {
       .append("exit\n")
       .append("else\n")
       .append("variable ").append(vm_func_name_).append("-next").append("\n")
-      .append("1 ").append(vm_func_name_).append("-next +!").append("\n")
-      .append(vm_func_name_).append("-next @ 1- ")
-      .append(vm_output_data_).append(" <- stack").append("\n")
       .append(content_.get()->vm_func_name()).append("\n")
+      .append(vm_func_name_).append("-next @ ")
+      .append(vm_output_data_).append(" <- stack").append("\n")
+      .append("1 ").append(vm_func_name_).append("-next +!").append("\n")
       .append("then\n")
       .append(";").append("\n");
 
diff --git a/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp b/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
index 9b8fb6b..7e251c1 100644
--- a/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/UnionArrayBuilder.cpp
@@ -52,7 +52,7 @@ namespace awkward {
 
     vm_func_.append("0 data seek\n")
       .append("data ").append(index_form_to_vm_format(form_.get()->tags()))
-      .append("-> stack dup ").append(vm_output_tags_).append(" <- stack\n");
+      .append("-> stack\n");
 
     int64_t tag = 0;
     int64_t contents_size = (int64_t)contents_.size();
@@ -63,7 +63,7 @@ namespace awkward {
         vm_func_.append("dup ");
       }
 
-      vm_func_.append(std::to_string(tag++))
+      vm_func_.append(std::to_string(tag))
         .append(" = if").append("\n");
 
       if (drop) {
@@ -75,6 +75,8 @@ namespace awkward {
 
       vm_func_.append(content.get()->vm_func_name())
         .append("\n")
+        .append(std::to_string(tag++)).append(" ")
+        .append(vm_output_tags_).append(" <- stack\n")
         .append("exit").append("\n");
 
       vm_func_.append("then").append("\n");
-- 
2.43.0


From 069515f7f5ae9f4857ab7948f3399f4b9f075696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:23 +0000
Subject: [PATCH 78/79] fix: LayoutBuilder: a categorical does not take a value
 of another type for one it has seen

---
 src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp b/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
index 6dde923..eeae9ba 100644
--- a/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
+++ b/src/libawkward/layoutbuilder/IndexedArrayBuilder.cpp
@@ -149,7 +149,8 @@ namespace awkward {
 
   void
   IndexedArrayBuilder::boolean(bool x, LayoutBuilder* builder) {
-    if (is_categorical_) {
+    if (is_categorical_  &&
+        content_.get()->vm_func_type() == dtype_to_state(util::dtype::boolean)) {
       auto const& data = content_.get()->vm_output_data();
       if (builder->find_index_of<bool>(x, data)) {
         return;
@@ -160,7 +161,8 @@ namespace awkward {
 
   void
   IndexedArrayBuilder::int64(int64_t x, LayoutBuilder* builder) {
-    if (is_categorical_) {
+    if (is_categorical_  &&
+        content_.get()->vm_func_type() == dtype_to_state(util::dtype::int64)) {
       auto const& data = content_.get()->vm_output_data();
       if (builder->find_index_of<int64_t>(x, data)) {
         return;
@@ -171,7 +173,8 @@ namespace awkward {
 
   void
   IndexedArrayBuilder::float64(double x, LayoutBuilder* builder) {
-    if (is_categorical_) {
+    if (is_categorical_  &&
+        content_.get()->vm_func_type() == dtype_to_state(util::dtype::float64)) {
       auto const& data = content_.get()->vm_output_data();
       if (builder->find_index_of<double>(x, data)) {
         return;
@@ -182,7 +185,8 @@ namespace awkward {
 
   void
   IndexedArrayBuilder::complex(std::complex<double> x, LayoutBuilder* builder) {
-    if (is_categorical_) {
+    if (is_categorical_  &&
+        content_.get()->vm_func_type() == dtype_to_state(util::dtype::complex128)) {
       auto const& data = content_.get()->vm_output_data();
       if (builder->find_index_of<std::complex<double>>(x, data)) {
         return;
-- 
2.43.0


From f4e6fa87fd2361ad81b7ff65f9b35a295ea985fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:54 +0000
Subject: [PATCH 79/79] fix: reading a scalar that carries identities (a field
 of a record) looked up a dimension it does not have

---
 src/libawkward/array/NumpyArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libawkward/array/NumpyArray.cpp b/src/libawkward/array/NumpyArray.cpp
index bab8481..a35da2b 100644
--- a/src/libawkward/array/NumpyArray.cpp
+++ b/src/libawkward/array/NumpyArray.cpp
@@ -1177,6 +1177,7 @@ namespace awkward {
   void
   NumpyArray::check_for_iteration() const {
     if (identities_.get() != nullptr  &&
+        !isscalar()  &&
         identities_.get()->length() < shape_[0]) {
       util::handle_error(
         failure("len(identities) < len(array)",
-- 
2.43.0

