From d05785df3e8ee25f2da90e26a5ad0f198c58dec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 01/69] fix: C API: check pointer arguments for NULL before
 using them

---
 src/capi.rs         |  4 ++--
 src/capi/mime.rs    |  3 +++
 src/capi/rawdata.rs |  3 +++
 src/capi/rawfile.rs | 11 ++++++++++-
 4 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index 27fa11a..a002562 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -308,7 +308,7 @@ unsafe extern "C" fn or_get_extract_thumbnail(
     preferred_size: u32,
     thumb: *mut ORThumbnailRef,
 ) -> or_error {
-    if thumb.is_null() {
+    if thumb.is_null() || filename.is_null() {
         return or_error::NOT_AREF;
     }
     let filename = unsafe { CStr::from_ptr(filename) };
@@ -345,7 +345,7 @@ unsafe extern "C" fn or_get_extract_rawdata(
     options: u32,
     rawdata: *mut ORRawDataRef,
 ) -> or_error {
-    if rawdata.is_null() {
+    if rawdata.is_null() || filename.is_null() {
         return or_error::NOT_AREF;
     }
 
diff --git a/src/capi/mime.rs b/src/capi/mime.rs
index 975d012..18029d8 100644
--- a/src/capi/mime.rs
+++ b/src/capi/mime.rs
@@ -64,6 +64,9 @@ extern "C" fn or_get_mime_types() -> *const *const c_char {
 /// A returned value of `0` denote either an error or a an unknown file.
 /// A non null invalid `rawfile` is undefined behaviour.
 extern "C" fn or_get_type_for_mime_type(mime_type: *const c_char) -> or_rawfile_type {
+    if mime_type.is_null() {
+        return Type::Unknown as u32;
+    }
     let mime_type = unsafe { CStr::from_ptr(mime_type) };
     crate::type_for_mime_type(&mime_type.to_string_lossy()).unwrap_or(Type::Unknown) as u32
 }
diff --git a/src/capi/rawdata.rs b/src/capi/rawdata.rs
index eb733ed..7e3569e 100644
--- a/src/capi/rawdata.rs
+++ b/src/capi/rawdata.rs
@@ -165,6 +165,9 @@ extern "C" fn or_rawdata_levels(
 // As shot neutral white balance.
 extern "C" fn or_rawdata_as_shot_neutral(rawdata: ORRawDataRef, wb: *mut f64) -> or_error {
     or_unwrap!(rawdata, or_error::NOT_AREF, {
+        if wb.is_null() {
+            return or_error::NOT_AREF;
+        }
         if let Some(rwb) = &rawdata.as_shot_neutral() {
             unsafe {
                 wb.copy_from_nonoverlapping(rwb.as_ptr(), 4);
diff --git a/src/capi/rawfile.rs b/src/capi/rawfile.rs
index a3051b7..abec0f7 100644
--- a/src/capi/rawfile.rs
+++ b/src/capi/rawfile.rs
@@ -61,6 +61,9 @@ pub type ORRawFileRef = *mut ORRawFile;
 /// It will return a [`ORRawFileRef`], that must be freed in with
 /// [`or_rawfile_release`].
 extern "C" fn or_rawfile_new(filename: *mut c_char, type_: Type) -> ORRawFileRef {
+    if filename.is_null() {
+        return std::ptr::null_mut();
+    }
     let filename = unsafe { CStr::from_ptr(filename) };
     let type_ = if type_ == Type::Unknown {
         None
@@ -81,6 +84,9 @@ extern "C" fn or_rawfile_new(filename: *mut c_char, type_: Type) -> ORRawFileRef
 /// It will return a [`ORRawFileRef`], that must be freed in with
 /// [`or_rawfile_release`].
 extern "C" fn or_rawfile_new_from_memory(buffer: *const u8, len: u32, type_: Type) -> ORRawFileRef {
+    if buffer.is_null() {
+        return std::ptr::null_mut();
+    }
     let bytes = unsafe { std::slice::from_raw_parts(buffer, len as usize) };
     let type_ = if type_ == Type::Unknown {
         None
@@ -231,6 +237,9 @@ extern "C" fn or_rawfile_get_metavalue(
     key: *const std::ffi::c_char,
 ) -> ORMetaValueRef {
     or_unwrap!(rawfile, std::ptr::null_mut(), {
+        if key.is_null() {
+            return std::ptr::null_mut();
+        }
         let key = unsafe { std::ffi::CStr::from_ptr(key) };
         rawfile
             .0
@@ -305,7 +314,7 @@ fn rawfile_get_colour_matrix(
     size: *mut u32,
 ) -> or_error {
     or_unwrap!(rawfile, or_error::NOT_AREF, {
-        if size.is_null() {
+        if matrix.is_null() || size.is_null() {
             return or_error::INVALID_PARAM;
         }
         rawfile.0.colour_matrix(index as usize).map_or_else(
-- 
2.43.0


From 15932e1a39af4ef0d331ec4c4b72c71a15dc0a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:12 +0000
Subject: [PATCH 02/69] fix: C API: map each library error that has a C error
 code to that code

---
 src/capi.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index a002562..38f3e23 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -135,7 +135,12 @@ pub enum or_error {
 impl From<Error> for or_error {
     fn from(err: Error) -> or_error {
         match err {
+            Error::None => or_error::NONE,
+            Error::BufferTooSmall => or_error::BUF_TOO_SMALL,
+            Error::InvalidAddress => or_error::NOT_AREF,
             Error::NotFound => or_error::NOT_FOUND,
+            Error::InvalidParam => or_error::INVALID_PARAM,
+            Error::InvalidFormat => or_error::INVALID_FORMAT,
             _ => or_error::UNKNOWN,
         }
     }
-- 
2.43.0


From dab61201f2d8a0203018e918b0c8714c3ab9eb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 03/69] fix: C API: always set the error code when an object is
 requested

---
 src/capi/rawfile.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/capi/rawfile.rs b/src/capi/rawfile.rs
index abec0f7..cc287c5 100644
--- a/src/capi/rawfile.rs
+++ b/src/capi/rawfile.rs
@@ -161,6 +161,9 @@ extern "C" fn or_rawfile_get_rawdata(
     options: u32,
     error: *mut or_error,
 ) -> ORRawDataRef {
+    if rawfile.is_null() && !error.is_null() {
+        unsafe { *error = or_error::NOT_AREF }
+    }
     or_unwrap!(rawfile, std::ptr::null_mut(), {
         let skip_decompression = options == or_options::DONT_DECOMPRESS as u32;
         rawfile
@@ -192,6 +195,9 @@ extern "C" fn or_rawfile_get_thumbnail(
     preferred_size: u32,
     error: *mut or_error,
 ) -> ORThumbnailRef {
+    if rawfile.is_null() && !error.is_null() {
+        unsafe { *error = or_error::NOT_AREF }
+    }
     or_unwrap!(rawfile, std::ptr::null_mut(), {
         rawfile
             .0
@@ -259,11 +265,19 @@ extern "C" fn or_rawfile_get_rendered_image(
     error: *mut or_error,
 ) -> ORBitmapDataRef {
     let options = RenderingOptions::from(options);
+    if rawfile.is_null() && !error.is_null() {
+        unsafe { *error = or_error::NOT_AREF }
+    }
     or_unwrap!(rawfile, std::ptr::null_mut(), {
         rawfile
             .0
             .rendered_image(options)
-            .map(|r| Box::into_raw(Box::new(r)))
+            .map(|r| {
+                if !error.is_null() {
+                    unsafe { *error = or_error::NONE };
+                }
+                Box::into_raw(Box::new(r))
+            })
             .unwrap_or_else(|e| {
                 if !error.is_null() {
                     unsafe { *error = e.into() };
-- 
2.43.0


From 783f9ee9cec1e693bd0a5d873b43dc2e8e932e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 04/69] fix: C API: only hand out NUL terminated strings

---
 src/capi.rs           | 17 +++++++++++++++++
 src/capi/ifd.rs       |  8 ++++----
 src/capi/iterator.rs  |  2 +-
 src/capi/metavalue.rs |  7 ++++---
 src/tiff/dir.rs       | 22 ++++++++++++++++++++++
 5 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index 38f3e23..e817919 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -84,6 +84,23 @@ pub use rawdata::ORRawDataRef;
 #[cfg(feature = "capi")]
 pub use thumbnail::ORThumbnailRef;
 
+#[cfg(feature = "capi")]
+/// Get the C string at the start of `bytes`. `None` if there is no NUL.
+pub(crate) fn c_str_until_nul(bytes: &[u8]) -> Option<&CStr> {
+    let nul = bytes.iter().position(|c| *c == 0)?;
+    CStr::from_bytes_with_nul(&bytes[..=nul]).ok()
+}
+
+#[cfg(feature = "capi")]
+/// Convert a Rust string to a C string, stopping at the first NUL.
+pub(crate) fn to_c_string(s: String) -> CString {
+    let mut bytes = s.into_bytes();
+    if let Some(nul) = bytes.iter().position(|c| *c == 0) {
+        bytes.truncate(nul);
+    }
+    CString::new(bytes).unwrap_or_default()
+}
+
 #[macro_export]
 /// unwrap a C type.
 macro_rules! or_unwrap {
diff --git a/src/capi/ifd.rs b/src/capi/ifd.rs
index 6176c58..340f575 100644
--- a/src/capi/ifd.rs
+++ b/src/capi/ifd.rs
@@ -89,7 +89,9 @@ extern "C" fn or_ifd_count_tags(dir: ORIfdDirRef) -> i32 {
 /// Return the makenote id. A NUL terminated string.
 extern "C" fn or_ifd_get_makernote_id(dir: ORIfdDirRef) -> *const std::ffi::c_char {
     or_unwrap!(dir, std::ptr::null(), {
-        dir.id().as_ptr() as *const std::ffi::c_char
+        super::c_str_until_nul(dir.id())
+            .map(|id| id.as_ptr())
+            .unwrap_or_else(std::ptr::null)
     })
 }
 
@@ -101,8 +103,6 @@ extern "C" fn or_ifd_get_type(dir: ORIfdDirRef) -> or_ifd_dir_type {
 #[no_mangle]
 extern "C" fn or_ifd_get_tag_name(dir: ORIfdDirRef, tag: u32) -> *const std::ffi::c_char {
     or_unwrap!(dir, std::ptr::null(), {
-        dir.tag_name(tag as u16)
-            // XXX this is very very unsafe, it is not NUL terminated
-            .as_ptr() as *const std::ffi::c_char
+        dir.tag_c_name(tag as u16).as_ptr()
     })
 }
diff --git a/src/capi/iterator.rs b/src/capi/iterator.rs
index b727101..d083e99 100644
--- a/src/capi/iterator.rs
+++ b/src/capi/iterator.rs
@@ -34,7 +34,7 @@ pub struct ORMetadata {
 impl From<metadata::Metadata> for ORMetadata {
     fn from(value: metadata::Metadata) -> Self {
         Self {
-            key: std::ffi::CString::new(value.0).unwrap(),
+            key: super::to_c_string(value.0),
             value: ORMetaValue::from(value.1),
             type_: value.2,
         }
diff --git a/src/capi/metavalue.rs b/src/capi/metavalue.rs
index 79c2428..2538835 100644
--- a/src/capi/metavalue.rs
+++ b/src/capi/metavalue.rs
@@ -36,7 +36,7 @@ impl ORMetaValue {
     /// Any subsequent call will always return the same string.
     pub fn to_c_string(&self, full: bool) -> &CString {
         self.1
-            .get_or_init(|| CString::new(self.0.into_string(full)).unwrap())
+            .get_or_init(|| super::to_c_string(self.0.into_string(full)))
     }
 }
 
@@ -66,8 +66,9 @@ extern "C" fn or_metavalue_release(metavalue: ORMetaValueRef) {
 /// The string pointer is owned by the metavalue.
 extern "C" fn or_metavalue_get_string(value: ORConstMetaValueRef) -> *const std::ffi::c_char {
     or_unwrap!(value, std::ptr::null(), {
-        if let metadata::Value::String(s) = &value.0 {
-            s.as_ptr() as *const std::ffi::c_char
+        if value.0.is_string() {
+            // the wrapper store the conversion
+            value.to_c_string(true).as_ptr()
         } else {
             std::ptr::null()
         }
diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 453ed4d..075824f 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -76,6 +76,9 @@ pub struct Dir {
     pub mnote_offset: u32,
     /// Tag names to decode.
     pub(crate) tag_names: &'static HashMap<u16, &'static str>,
+    /// Tag names as C strings.
+    #[cfg(feature = "capi")]
+    tag_c_names: OnceCell<HashMap<u16, std::ffi::CString>>,
     /// SubIFs
     sub_ifds: OnceCell<Vec<Dir>>,
 }
@@ -586,6 +589,8 @@ impl Dir {
             id: vec![0],
             mnote_offset: base_offset,
             tag_names: &exif::TAG_NAMES,
+            #[cfg(feature = "capi")]
+            tag_c_names: OnceCell::new(),
             sub_ifds: OnceCell::new(),
         })
     }
@@ -599,6 +604,8 @@ impl Dir {
             next: 0,
             mnote_offset: 0,
             tag_names: &exif::TAG_NAMES,
+            #[cfg(feature = "capi")]
+            tag_c_names: OnceCell::new(),
             sub_ifds: OnceCell::new(),
         }
     }
@@ -831,6 +838,21 @@ impl Dir {
     pub fn tag_name(&self, id: u16) -> &'static str {
         self.tag_names.get(&id).unwrap_or(&"")
     }
+
+    #[cfg(feature = "capi")]
+    /// The tag name as a C string that belongs to the directory.
+    pub(crate) fn tag_c_name(&self, id: u16) -> &std::ffi::CStr {
+        self.tag_c_names
+            .get_or_init(|| {
+                self.tag_names
+                    .iter()
+                    .filter_map(|(id, name)| Some((*id, std::ffi::CString::new(*name).ok()?)))
+                    .collect()
+            })
+            .get(&id)
+            .map(|name| name.as_c_str())
+            .unwrap_or_default()
+    }
 }
 
 impl Ifd for Dir {
-- 
2.43.0


From 5895fb96d2bf73ddcf9cec5db66efd721fa120cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:34 +0000
Subject: [PATCH 05/69] fix: C API: provide the declared pattern, pattern size
 and bits per component functions

---
 src/capi/bitmap.rs |  6 ++++++
 src/capi/mosaic.rs | 35 +++++++++++++++++++++++++++++++----
 2 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/capi/bitmap.rs b/src/capi/bitmap.rs
index 849c306..32b3750 100644
--- a/src/capi/bitmap.rs
+++ b/src/capi/bitmap.rs
@@ -83,3 +83,9 @@ extern "C" fn or_bitmapdata_dimensions(bitmap: ORBitmapDataRef, x: *mut u32, y:
         }
     })
 }
+
+#[no_mangle]
+/// Get the number of bits per component.
+extern "C" fn or_bitmapdata_bpc(bitmap: ORBitmapDataRef) -> u32 {
+    or_unwrap!(bitmap, 0, bitmap.bpc().into())
+}
diff --git a/src/capi/mosaic.rs b/src/capi/mosaic.rs
index afb7444..86b62ea 100644
--- a/src/capi/mosaic.rs
+++ b/src/capi/mosaic.rs
@@ -34,8 +34,35 @@ extern "C" fn or_mosaicinfo_get_type(mosaic_info: ORMosaicInfoRef) -> or_cfa_pat
 }
 
 #[no_mangle]
-/// Get the pattern. Currently unimplemented.
-extern "C" fn or_mosaicinfo_get_pattern(_mosaic_info: ORMosaicInfoRef) -> *const u8 {
-    // XXX todo
-    unreachable!();
+/// Get the size of the pattern.
+extern "C" fn or_mosaicinfo_get_size(mosaic_info: ORMosaicInfoRef, x: *mut u16, y: *mut u16) {
+    or_unwrap!(mosaic_info, (), {
+        if !x.is_null() {
+            unsafe { *x = mosaic_info.width() as u16 };
+        }
+        if !y.is_null() {
+            unsafe { *y = mosaic_info.height() as u16 };
+        }
+    })
+}
+
+#[no_mangle]
+/// Get the pattern: an array of `*count` colours owned by `mosaic_info`.
+///
+/// Will return `null` if the pattern is empty.
+extern "C" fn or_mosaicinfo_get_pattern(
+    mosaic_info: ORMosaicInfoRef,
+    count: *mut u16,
+) -> *const u8 {
+    or_unwrap!(mosaic_info, std::ptr::null(), {
+        let pattern = mosaic_info.pattern();
+        if !count.is_null() {
+            unsafe { *count = pattern.len() as u16 };
+        }
+        if pattern.is_empty() {
+            return std::ptr::null();
+        }
+        // `PatternColour` is `repr(u8)`
+        pattern.as_ptr() as *const u8
+    })
 }
-- 
2.43.0


From 3f99ec52e92e8fd0d9d3a50f2425c40b143968c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:50 +0000
Subject: [PATCH 06/69] fix: C API: declare the file types and the directory
 type the library can return

---
 include/libopenraw/consts.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/libopenraw/consts.h b/include/libopenraw/consts.h
index ce34b19..a4bbf54 100644
--- a/include/libopenraw/consts.h
+++ b/include/libopenraw/consts.h
@@ -74,6 +74,8 @@ typedef enum {
     OR_RAWFILE_TYPE_CR3,         /**< Canon CR3 */
     OR_RAWFILE_TYPE_GPR,         /**< GoPro GPR (DNG-variation) */
     OR_RAWFILE_TYPE_SR2,         /**< Sony SR2 */
+    OR_RAWFILE_TYPE_RW,          /**< Panasonic RAW, old RW */
+    OR_RAWFILE_TYPE_JPEG = 100,  /**< JPEG. Not a RAW. */
 } or_rawfile_type;
 
 /** @brief Data types */
@@ -150,6 +152,8 @@ typedef enum {
     OR_IFD_RAW = 4,
     /// SubIFD
     OR_IFD_SUBIFD = 5,
+    /// GPS info
+    OR_IFD_GPSINFO = 6,
     /// INVALID value
     OR_IFD_INVALID = 10000,
 } or_ifd_dir_type;
-- 
2.43.0


From 03ba0e0d27572ce03144bfbc720231d5fad769d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:46 +0000
Subject: [PATCH 07/69] fix: C API: accept any integer where the header has an
 enum parameter

---
 src/capi.rs         |  8 ++++++--
 src/capi/ifd.rs     |  5 ++++-
 src/capi/rawfile.rs | 33 ++++++++++++++++++++-------------
 src/lib.rs          |  3 ++-
 4 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index e817919..c812bd3 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -64,6 +64,7 @@ use std::os::unix::ffi::OsStrExt;
 use libc::c_char;
 #[cfg(feature = "capi")]
 use once_cell::sync::Lazy;
+use num_enum::TryFromPrimitive;
 
 use crate::mosaic::Pattern;
 #[cfg(feature = "capi")]
@@ -265,10 +266,11 @@ pub(crate) enum or_options {
 #[allow(non_camel_case_types)]
 type or_colour_matrix_origin = crate::colour::MatrixOrigin;
 
-#[repr(C)]
+#[repr(u32)]
 #[allow(non_camel_case_types)]
 #[allow(dead_code)]
 #[allow(clippy::upper_case_acronyms)]
+#[derive(TryFromPrimitive)]
 /// Debug level
 pub(crate) enum debug_level {
     /// Error.
@@ -303,7 +305,9 @@ impl From<debug_level> for log::LevelFilter {
 ///
 /// This will enable the verbosity of the library. Will display
 /// message for level less then or equal to `lvl`.
-extern "C" fn or_debug_set_level(lvl: debug_level) {
+extern "C" fn or_debug_set_level(lvl: u32) {
+    // Anything past the last level is as verbose as the last level.
+    let lvl = debug_level::try_from_primitive(lvl).unwrap_or(debug_level::DEBUG2);
     let level: log::LevelFilter = lvl.into();
 
     log::set_max_level(level);
diff --git a/src/capi/ifd.rs b/src/capi/ifd.rs
index 340f575..9a4cbdc 100644
--- a/src/capi/ifd.rs
+++ b/src/capi/ifd.rs
@@ -19,6 +19,8 @@
  * <http://www.gnu.org/licenses/>.
  */
 
+use num_enum::TryFromPrimitive;
+
 use crate::tiff::{Ifd, IfdType};
 
 use crate::or_unwrap;
@@ -26,9 +28,10 @@ use crate::or_unwrap;
 /// And IFD directory.
 pub type ORIfdDirRef = *const crate::tiff::Dir;
 
-#[repr(C)]
+#[repr(u32)]
 #[allow(non_camel_case_types)]
 #[allow(clippy::upper_case_acronyms)]
+#[derive(TryFromPrimitive)]
 /// Type of IFD
 pub enum or_ifd_dir_type {
     /// Generic
diff --git a/src/capi/rawfile.rs b/src/capi/rawfile.rs
index cc287c5..cd99235 100644
--- a/src/capi/rawfile.rs
+++ b/src/capi/rawfile.rs
@@ -26,6 +26,8 @@ use std::os::raw::c_char;
 // This is not portable to Windows
 use std::os::unix::ffi::OsStrExt;
 
+use num_enum::TryFromPrimitive;
+
 use crate::render::RenderingOptions;
 use crate::tiff::exif;
 use crate::{or_unwrap, rawfile_from_file, rawfile_from_memory, RawFileHandle, Type};
@@ -53,6 +55,13 @@ pub struct ORRawFile(RawFileHandle);
 /// Pointer to a [`ORRawFile`] object wrapper exported to the C API.
 pub type ORRawFileRef = *mut ORRawFile;
 
+/// The type hint passed from C. `None` if there is no usable hint.
+fn type_hint(type_: or_rawfile_type) -> Option<Type> {
+    Type::try_from_primitive(type_)
+        .ok()
+        .filter(|type_| *type_ != Type::Unknown)
+}
+
 #[no_mangle]
 /// Open a new raw file located at `filename` (a path to the file system).
 ///
@@ -60,16 +69,12 @@ pub type ORRawFileRef = *mut ORRawFile;
 /// library detect the file.
 /// It will return a [`ORRawFileRef`], that must be freed in with
 /// [`or_rawfile_release`].
-extern "C" fn or_rawfile_new(filename: *mut c_char, type_: Type) -> ORRawFileRef {
+extern "C" fn or_rawfile_new(filename: *mut c_char, type_: or_rawfile_type) -> ORRawFileRef {
     if filename.is_null() {
         return std::ptr::null_mut();
     }
     let filename = unsafe { CStr::from_ptr(filename) };
-    let type_ = if type_ == Type::Unknown {
-        None
-    } else {
-        Some(type_)
-    };
+    let type_ = type_hint(type_);
     if let Ok(rawfile) = rawfile_from_file(OsStr::from_bytes(filename.to_bytes()), type_) {
         Box::into_raw(Box::new(ORRawFile(rawfile)))
     } else {
@@ -83,16 +88,16 @@ extern "C" fn or_rawfile_new(filename: *mut c_char, type_: Type) -> ORRawFileRef
 /// `type_` is a type hint, like for [`or_rawfile_new`].
 /// It will return a [`ORRawFileRef`], that must be freed in with
 /// [`or_rawfile_release`].
-extern "C" fn or_rawfile_new_from_memory(buffer: *const u8, len: u32, type_: Type) -> ORRawFileRef {
+extern "C" fn or_rawfile_new_from_memory(
+    buffer: *const u8,
+    len: u32,
+    type_: or_rawfile_type,
+) -> ORRawFileRef {
     if buffer.is_null() {
         return std::ptr::null_mut();
     }
     let bytes = unsafe { std::slice::from_raw_parts(buffer, len as usize) };
-    let type_ = if type_ == Type::Unknown {
-        None
-    } else {
-        Some(type_)
-    };
+    let type_ = type_hint(type_);
     let buffer = Vec::from(bytes);
     match rawfile_from_memory(buffer, type_) {
         Ok(rawfile) => Box::into_raw(Box::new(ORRawFile(rawfile))),
@@ -289,7 +294,9 @@ extern "C" fn or_rawfile_get_rendered_image(
 
 #[no_mangle]
 /// Get the IFD with type `ifd_type`. May return `null` if not found.
-extern "C" fn or_rawfile_get_ifd(rawfile: ORRawFileRef, ifd_type: or_ifd_dir_type) -> ORIfdDirRef {
+extern "C" fn or_rawfile_get_ifd(rawfile: ORRawFileRef, ifd_type: u32) -> ORIfdDirRef {
+    let ifd_type =
+        or_ifd_dir_type::try_from_primitive(ifd_type).unwrap_or(or_ifd_dir_type::INVALID);
     or_unwrap!(
         rawfile,
         std::ptr::null(),
diff --git a/src/lib.rs b/src/lib.rs
index 875628d..cd0f16d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -26,6 +26,7 @@
 #[macro_use]
 extern crate log;
 
+use num_enum::TryFromPrimitive;
 use once_cell::sync::Lazy;
 
 #[macro_use]
@@ -232,7 +233,7 @@ impl From<DataType> for String {
 /// coincidentally match the vendor, except for DNG.
 ///
 /// The value match the enum on the C++ headers.
-#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq)]
+#[derive(Clone, Copy, Debug, Eq, Hash, PartialEq, TryFromPrimitive)]
 #[repr(u32)]
 pub enum Type {
     /// Unknown vendor
-- 
2.43.0


From 13c39839764a4fb9854946569aa29fb7fdae6c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:39 +0000
Subject: [PATCH 08/69] fix: return the file extensions in a fixed order

---
 src/identify.rs | 2 +-
 src/lib.rs      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/identify.rs b/src/identify.rs
index 89252e3..36c562b 100644
--- a/src/identify.rs
+++ b/src/identify.rs
@@ -51,7 +51,7 @@ const TYPE_MIME: [(Type, &str); 15] = [
     (Type::Sr2, "image/x-sony-sr2"),
 ];
 
-const EXT_TYPE: [(&str, Type); 17] = [
+pub(crate) const EXT_TYPE: [(&str, Type); 17] = [
     // The extension MUST be lowercase
     ("arw", Type::Arw),
     ("cr2", Type::Cr2),
diff --git a/src/lib.rs b/src/lib.rs
index cd0f16d..bc53c33 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -358,7 +358,8 @@ impl From<TypeId> for u32 {
 }
 
 static EXTENSIONS: Lazy<Vec<String>> = Lazy::new(|| {
-    crate::identify::EXT_TO_TYPE
+    // Not `EXT_TO_TYPE`: its order changes from run to run.
+    crate::identify::EXT_TYPE
         .iter()
         .filter_map(|(e, t)| {
             if *t != Type::Jpeg {
-- 
2.43.0


From e7e60627b7cb56edac7b3e373c5c2aef8df1ed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:19 +0000
Subject: [PATCH 09/69] fix: map the name of every file type back to it

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index bc53c33..9c59b37 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -288,14 +288,17 @@ impl From<&str> for Type {
             "DNG" => Self::Dng,
             "ERF" => Self::Erf,
             "GPR" => Self::Gpr,
+            "JPEG" => Self::Jpeg,
             "MRW" => Self::Mrw,
             "NEF" => Self::Nef,
             "NRW" => Self::Nrw,
             "ORF" => Self::Orf,
             "PEF" => Self::Pef,
             "RAF" => Self::Raf,
+            "RW" => Self::Rw,
             "RW2" => Self::Rw2,
             "SR2" => Self::Sr2,
+            "TIF" => Self::Tiff,
             _ => Self::Unknown,
         }
     }
-- 
2.43.0


From 916b19cbf2b25568241e94ccf1b8af00c13cf20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:19 +0000
Subject: [PATCH 10/69] fix: register a decoder for the SR2 type

---
 src/factory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/factory.rs b/src/factory.rs
index 1c61657..e9f3fb3 100644
--- a/src/factory.rs
+++ b/src/factory.rs
@@ -59,6 +59,7 @@ lazy_static::lazy_static! {
         (Type::Raf, RafFile::factory as RawFileFactory),
         (Type::Rw, Rw2File::factory as RawFileFactory),
         (Type::Rw2, Rw2File::factory as RawFileFactory),
+        (Type::Sr2, ArwFile::factory as RawFileFactory),
     ]);
 }
 
-- 
2.43.0


From 17cc2dc0254d9ab2688f9cef741817f252984466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:37 +0000
Subject: [PATCH 11/69] fix: cameraids.h: give the Hasselblad L2D-20c the
 number the library uses

---
 include/libopenraw/cameraids.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libopenraw/cameraids.h b/include/libopenraw/cameraids.h
index bc83974..c93720f 100644
--- a/include/libopenraw/cameraids.h
+++ b/include/libopenraw/cameraids.h
@@ -937,7 +937,7 @@ enum _OR_TYPEID_VENDOR_HASSELBLAD {
     OR_TYPEID_HASSELBLAD_UNKNOWN = 0,
     OR_TYPEID_HASSELBLAD_LUNAR = 1,
     OR_TYPEID_HASSELBLAD_L1D_20C = 2,
-    OR_TYPEID_HASSELBLAD_L2D_20C = 2,
+    OR_TYPEID_HASSELBLAD_L2D_20C = 3,
 
     _OR_TYPEID_HASSELBLAD_LAST
 };
-- 
2.43.0


From 07c63ad30019299bd369928558afb4e8a5380e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 12/69] fix: give the EOS 60D its own type ID It had the ID of
 the EOS 50D and was given its colour matrix.

---
 include/libopenraw/cameraids.h | 2 +-
 src/camera_ids.rs              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libopenraw/cameraids.h b/include/libopenraw/cameraids.h
index c93720f..ed6f7ef 100644
--- a/include/libopenraw/cameraids.h
+++ b/include/libopenraw/cameraids.h
@@ -130,7 +130,7 @@ enum _OR_TYPEID_VENDOR_CANON {
     OR_TYPEID_CANON_KISS_F = OR_TYPEID_CANON_1000D,
     OR_TYPEID_CANON_G10 = 35,
     OR_TYPEID_CANON_50D = 36,
-    OR_TYPEID_CANON_60D = 36,
+    OR_TYPEID_CANON_60D = 124,
     OR_TYPEID_CANON_S90 = 37,
     OR_TYPEID_CANON_G12 = 38,
     OR_TYPEID_CANON_S95 = 39,
diff --git a/src/camera_ids.rs b/src/camera_ids.rs
index 53abaec..0548f0b 100644
--- a/src/camera_ids.rs
+++ b/src/camera_ids.rs
@@ -135,7 +135,7 @@ pub mod canon {
     pub const KISS_F: u16 = EOS_1000D;
     pub const G10: u16 = 35;
     pub const EOS_50D: u16 = 36;
-    pub const EOS_60D: u16 = 36;
+    pub const EOS_60D: u16 = 124;
     pub const S90: u16 = 37;
     pub const G12: u16 = 38;
     pub const S95: u16 = 39;
-- 
2.43.0


From ce3c83617ee9f9ca9f9bb73f7e274d354aa34a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:18 +0000
Subject: [PATCH 13/69] fix: drop the second, unreachable, EOS 100D colour
 matrix

---
 src/canon/matrices.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/canon/matrices.rs b/src/canon/matrices.rs
index a2455c2..df52fb1 100644
--- a/src/canon/matrices.rs
+++ b/src/canon/matrices.rs
@@ -24,7 +24,7 @@ use crate::colour::BuiltinMatrix;
 use crate::TypeId;
 
 lazy_static::lazy_static! {
-    pub(super) static ref MATRICES: [BuiltinMatrix; 119] = [
+    pub(super) static ref MATRICES: [BuiltinMatrix; 118] = [
     /* CRW */
     BuiltinMatrix::new( canon!(EOS_D30),
       0,
@@ -212,10 +212,6 @@ lazy_static::lazy_static! {
       0,
       0x3510,
       [ 6444, -904, -893, -4563, 12308, 2535, -903, 2016, 6728 ] ),
-    BuiltinMatrix::new( canon!(EOS_100D),
-      0,
-      0x3806,
-      [ 6602, -841, -939, -4472, 12458, 2247, -975, 2039, 6148 ] ),
     BuiltinMatrix::new( canon!(EOS_1200D), // Rebel T5
       0,
       0x37c2,
-- 
2.43.0


From 4538c05f3a30c942ac5097419428d16f194cd885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:20 +0000
Subject: [PATCH 14/69] fix: don't divide by zero reading a RATIONAL as an
 integer

---
 src/tiff/entry.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tiff/entry.rs b/src/tiff/entry.rs
index d62c2fc..a8867ca 100644
--- a/src/tiff/entry.rs
+++ b/src/tiff/entry.rs
@@ -221,7 +221,9 @@ impl Entry {
                 TagType::Long => Some(u32::read::<E>(
                     &self.data.as_slice()[u32::unit_size() * index as usize..],
                 )),
-                TagType::Rational => self.value::<Rational, E>().map(|r| r.num / r.denom),
+                TagType::Rational => self
+                    .value_at_index::<Rational, E>(index)
+                    .map(|r| u32::from(&r)),
                 _ => {
                     log::error!("incorrect type {} for uint {}", self.type_, self.id);
                     None
-- 
2.43.0


From d9b7541533189804dd86a0aa591e127410c8a889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:42 +0000
Subject: [PATCH 15/69] fix: don't lay out an Olympus image that has no width

---
 src/olympus.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/olympus.rs b/src/olympus.rs
index 1af1493..b1d629b 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -211,11 +211,14 @@ impl OrfFile {
 
     // Inspired from rawloader::decoders::packed::decode_12be_interlaced
     //  https://github.com/pedrocr/rawloader/blob/master/src/decoders/packed.rs#L182
-    fn decode_12be_olympus_interlaced(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
+    fn decode_12be_olympus_interlaced(buf: &[u8], width: usize, height: usize) -> Option<Vec<u16>> {
+        if width == 0 {
+            return None;
+        }
         let half = (height + 1) >> 1;
         // Interlaced data seems to be 2048 bytes aligned
         let interlaced_offset = (((half * width * 3 / 2) >> 11) + 1) << 11;
-        let interlaced = &buf[interlaced_offset..];
+        let interlaced = buf.get(interlaced_offset..)?;
 
         let mut out: Vec<u16> = vec![0; width * height];
         out.par_chunks_mut(width)
@@ -244,7 +247,7 @@ impl OrfFile {
                 }
             });
 
-        out
+        Some(out)
     }
 
     // Inspired from rawloader::decoders::packed::decode_12be_msb32
@@ -303,11 +306,7 @@ impl OrfFile {
                     // but SP565UZ is 3664 and interlaced.
                     if width < 3700 {
                         probe!(self.probe, "orf.decompress.interlaced", "true");
-                        Some(Self::decode_12be_olympus_interlaced(
-                            data8,
-                            width as usize,
-                            height as usize,
-                        ))
+                        Self::decode_12be_olympus_interlaced(data8, width as usize, height as usize)
                     } else {
                         probe!(self.probe, "orf.decompress.12be", "true");
                         Some(Self::decode_12be_olympus(
-- 
2.43.0


From 962ac4631be310e27e74f9de2b61e0ef0c44bca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:42 +0000
Subject: [PATCH 16/69] fix: CRW decompression needs dimensions

---
 src/canon/crw/decompress.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index 26da8fb..0787e60 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -25,7 +25,7 @@ use byteorder::ReadBytesExt;
 
 use crate::mosaic::Pattern;
 use crate::rawfile::ReadAndSeek;
-use crate::{DataType, RawImage, Result};
+use crate::{DataType, Error, RawImage, Result};
 
 const FIRST_TREE: [[u8; 29]; 3] = [
     [
@@ -249,6 +249,9 @@ impl Decompress {
     }
 
     pub(super) fn decompress(&mut self, reader: &mut dyn ReadAndSeek) -> Result<RawImage> {
+        if self.width == 0 || self.height == 0 {
+            return Err(Error::Decompression("CRW: no dimensions".into()));
+        }
         let mut data = Vec::with_capacity(self.width as usize * self.height as usize);
 
         let lowbits = if canon_has_lowbits(reader)? { 1 } else { 0 };
-- 
2.43.0


From b46349301e240f56eddaf90aa6e0f724e65af327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:42 +0000
Subject: [PATCH 17/69] fix: reject a LJPEG without components

---
 src/decompress/ljpeg.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 6120d52..90606a9 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -182,7 +182,7 @@ impl LJpeg {
                 dc_info.image_width, dc_info.image_height
             )));
         }
-        if dc_info.num_components > 4 {
+        if dc_info.num_components == 0 || dc_info.num_components > 4 {
             return Err(Error::JpegFormat(format!(
                 "LJPEG: unsupported number of components {}",
                 dc_info.num_components
-- 
2.43.0


From e820b2be0b03e36ba595d3c5dab74b4b002fa865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:42 +0000
Subject: [PATCH 18/69] fix: reject a Fujifilm image without a mosaic pattern

---
 src/fujifilm/decompress.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fujifilm/decompress.rs b/src/fujifilm/decompress.rs
index b656830..a1c2259 100644
--- a/src/fujifilm/decompress.rs
+++ b/src/fujifilm/decompress.rs
@@ -203,6 +203,7 @@ impl Header {
         !(self.signature != 0x4953
       //|| self.lossless != 1
       || self.raw_height > 0x3000
+      || cfa.height() == 0
       || (self.raw_height as usize) < cfa.height()
       || (self.raw_height as usize) % cfa.height() != 0
       || self.raw_width > 0x3000
@@ -547,6 +548,9 @@ impl CompressedBlock {
         }
         let cfa_width = strip.cfa.width();
         let cfa_height = strip.cfa.height();
+        if cfa_width == 0 || cfa_height == 0 {
+            return;
+        }
         for row_count in 0..Strip::line_height() {
             for pixel_count in 0..strip.width() {
                 let line_idx = match strip.cfa[(row_count % cfa_height, pixel_count % cfa_width)] {
-- 
2.43.0


From 4852ad32c90fa4fa654698fe74073d4e180b06ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:13 +0000
Subject: [PATCH 19/69] fix: Pentax: don't decompress when asked not to

---
 src/pentax.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pentax.rs b/src/pentax.rs
index 3a768f9..56b48b7 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -441,7 +441,7 @@ impl RawFileImpl for PefFile {
         }
     }
 
-    fn load_rawdata(&self, _skip_decompress: bool) -> Result<RawImage> {
+    fn load_rawdata(&self, skip_decompress: bool) -> Result<RawImage> {
         self.container()?;
         let type_id = self.type_id()?;
         let container = self.container.get().unwrap();
@@ -535,6 +535,9 @@ impl RawFileImpl for PefFile {
                     "pef.compression",
                     &format!("{:?}", rawdata.compression())
                 );
+                if skip_decompress {
+                    return rawdata;
+                }
                 if let Some(data8) = rawdata.data8() {
                     let huffman = self
                         .ifd(tiff::IfdType::MakerNote)
-- 
2.43.0


From 8cb81c8c0c8a8c5c38c871f24f63cc76bf678412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:14 +0000
Subject: [PATCH 20/69] fix: zero fill the untiled buffer

Tiles that are missing or that don't cover the image would leave it uninitialised.
---
 src/decompress/tiled.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompress/tiled.rs b/src/decompress/tiled.rs
index fde4b10..052f74e 100644
--- a/src/decompress/tiled.rs
+++ b/src/decompress/tiled.rs
@@ -38,7 +38,7 @@ impl TiledLJpeg {
     /// Combine tiles into the final buffer. `width` and `height` are the final dimensions.
     fn combine_tiles(width: usize, height: usize, tiles: &[Option<Tile>]) -> Vec<u16> {
         let data_size = width * height;
-        let mut buffer = uninit_vec!(data_size);
+        let mut buffer = vec![0; data_size];
 
         let mut first_row = 0_usize;
         let mut first_col = 0_usize;
-- 
2.43.0


From 6b794b1d40d17653038a5fa4a4a0d52083a915b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:14 +0000
Subject: [PATCH 21/69] fix: don't return buffers that were not read

If the seek or read fails the error is returned. Don't allocate more than what can be read.
---
 src/canon/cr2.rs |  2 +-
 src/canon/cr3.rs |  2 +-
 src/container.rs | 73 ++++++++++++++++++++----------------------------
 src/fujifilm.rs  |  6 ++--
 src/minolta.rs   | 12 ++++----
 src/panasonic.rs |  6 ++--
 src/sony.rs      |  2 +-
 src/tiff.rs      | 14 +++++-----
 8 files changed, 53 insertions(+), 64 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index 947b49f..317ac13 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -87,7 +87,7 @@ impl Cr2File {
         slices: &[u32],
         skip_decompress: bool,
     ) -> Result<RawImage> {
-        let data = self.container()?.load_buffer8(offset, byte_len);
+        let data = self.container()?.load_buffer8(offset, byte_len)?;
         if (data.len() as u64) != byte_len {
             log::warn!("Size mismatch for data. Moving on");
         }
diff --git a/src/canon/cr3.rs b/src/canon/cr3.rs
index c3e3bab..3f4a414 100644
--- a/src/canon/cr3.rs
+++ b/src/canon/cr3.rs
@@ -195,7 +195,7 @@ impl RawFileImpl for Cr3File {
             let height = raw_track.image_height;
             let byte_len = raw_track.len;
             let offset = raw_track.offset;
-            let data = container.load_buffer8(offset, byte_len);
+            let data = container.load_buffer8(offset, byte_len)?;
 
             let mut rawdata = RawImage::with_data8(
                 width as u32,
diff --git a/src/container.rs b/src/container.rs
index 31cee69..5ecff11 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -112,20 +112,12 @@ pub trait RawContainer {
             Data::Bytes(ref b) => b.clone(),
             Data::Offset(ref offset) => {
                 let mut view = self.borrow_view_mut();
-                let mut len = offset.len;
-                if offset.offset + len > view.len() {
-                    // Ricoh GXR A16 have a thumbnail size that goes past EOF
-                    // Just readjust the size to go to the end and load that.
-                    // It seems to work. Worst case scenario it still doesn't.
-                    log::warn!(
-                        "Thumbnail too big. offset {:?} view len = {}. Readjusting.",
-                        offset,
-                        view.len()
-                    );
-                    len = view.len() - offset.offset;
-                }
-                let mut data = uninit_vec!(len as usize);
+                // Ricoh GXR A16 have a thumbnail size that goes past EOF
+                // Just readjust the size to go to the end and load that.
+                // It seems to work. Worst case scenario it still doesn't.
+                let len = available_len(&view, offset.offset, offset.len);
                 view.seek(SeekFrom::Start(offset.offset))?;
+                let mut data = uninit_vec!(len as usize);
                 view.read_exact(data.as_mut_slice())?;
                 data
             }
@@ -141,59 +133,56 @@ pub trait RawContainer {
     /// Get the io::View for the container.
     fn borrow_view_mut(&self) -> RefMut<'_, View>;
 
-    /// Load an 8bit buffer at `offset` and of `len` bytes.
-    fn load_buffer8(&self, offset: u64, len: u64) -> Vec<u8> {
-        let mut data = uninit_vec!(len as usize);
-
+    /// Load an 8bit buffer at `offset` and of `len` bytes. If there
+    /// aren't enough bytes the buffer is shorter.
+    fn load_buffer8(&self, offset: u64, len: u64) -> Result<Vec<u8>> {
         let mut view = self.borrow_view_mut();
-        if view.seek(SeekFrom::Start(offset)).is_err() {
-            log::error!("load_buffer8: Seek failed");
-        }
-        if let Ok(n) = view.read(data.as_mut_slice()) {
-            if n < len as usize {
-                log::debug!("Short read {} < {}", n, len);
-                data.resize(n, 0);
-            }
-        } else {
-            log::error!("load_buffer8: read failed");
-        }
+        let len = available_len(&view, offset, len);
+        view.seek(SeekFrom::Start(offset))?;
+        let mut data = uninit_vec!(len as usize);
+        view.read_exact(data.as_mut_slice())?;
 
-        data
+        Ok(data)
     }
 
     /// Load an 16 bit buffer at `offset` and of `len` bytes in the native endian.
-    fn load_buffer16(&self, offset: u64, len: u64) -> Vec<u16> {
+    fn load_buffer16(&self, offset: u64, len: u64) -> Result<Vec<u16>> {
         let mut view = self.borrow_view_mut();
         load_buffer16_endian::<NativeEndian>(&mut view, offset, len)
     }
 
     /// Load an 16 bit buffer at `offset` and of `len` bytes, from Little Endian
-    fn load_buffer16_le(&self, offset: u64, len: u64) -> Vec<u16> {
+    fn load_buffer16_le(&self, offset: u64, len: u64) -> Result<Vec<u16>> {
         let mut view = self.borrow_view_mut();
         load_buffer16_endian::<LittleEndian>(&mut view, offset, len)
     }
 
     /// Load an 16 bit buffer at `offset` and of `len` bytes, from Big Endian
-    fn load_buffer16_be(&self, offset: u64, len: u64) -> Vec<u16> {
+    fn load_buffer16_be(&self, offset: u64, len: u64) -> Result<Vec<u16>> {
         let mut view = self.borrow_view_mut();
         load_buffer16_endian::<BigEndian>(&mut view, offset, len)
     }
 }
 
+/// How many of the `len` bytes at `offset` there are in `view`.
+fn available_len(view: &View, offset: u64, len: u64) -> u64 {
+    let available = view.len().saturating_sub(offset);
+    if len > available {
+        log::warn!("{len} bytes at {offset} go past the end. Readjusting to {available}.");
+    }
+    len.min(available)
+}
+
 /// Load an 16 bit buffer at `offset` and of `len` bytes following endian `E`.
-fn load_buffer16_endian<E>(view: &mut View, offset: u64, len: u64) -> Vec<u16>
+/// If there aren't enough bytes the buffer is shorter.
+fn load_buffer16_endian<E>(view: &mut View, offset: u64, len: u64) -> Result<Vec<u16>>
 where
     E: ByteOrder,
 {
+    let len = available_len(view, offset, len);
+    view.seek(SeekFrom::Start(offset))?;
     let mut data = uninit_vec!((len / 2) as usize);
+    view.read_u16_into::<E>(&mut data)?;
 
-    if let Err(err) = view.seek(SeekFrom::Start(offset)) {
-        log::error!("load_buffer16: Seek failed: {err}");
-    }
-
-    if let Err(err) = view.read_u16_into::<E>(&mut data) {
-        log::error!("load_buffer16: {err}");
-    }
-
-    data
+    Ok(data)
 }
diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 090911f..f4a55ee 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -236,7 +236,7 @@ impl RawFileImpl for RafFile {
                                 dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT)?;
                             let len =
                                 dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT_LENGTH)?;
-                            let bytes = exif.load_buffer8(offset as u64, len as u64);
+                            let bytes = exif.load_buffer8(offset as u64, len as u64).ok()?;
                             let mut byte_slice = bytes.as_slice();
                             let mut decoder = jpeg_decoder::Decoder::new(&mut byte_slice);
                             decoder
@@ -456,7 +456,7 @@ impl RawFileImpl for RafFile {
                 probe!(self.probe, "raf.compressed", compressed);
                 let mut rawdata = if !compressed {
                     if cfa_len == (2 * raw_size.width as u64 * raw_size.height as u64) {
-                        let buffer = raw_container.load_buffer16_le(cfa_offset, cfa_len);
+                        let buffer = raw_container.load_buffer16_le(cfa_offset, cfa_len)?;
                         RawImage::with_data16(
                             raw_size.width,
                             raw_size.height,
@@ -509,7 +509,7 @@ impl RawFileImpl for RafFile {
                         )
                     }
                 } else {
-                    let mut raw = raw_container.load_buffer8(cfa_offset, cfa_len);
+                    let mut raw = raw_container.load_buffer8(cfa_offset, cfa_len)?;
                     // The decompressor needs some extra bytes. We add 16.
                     raw.extend(&[0; 16]);
                     let mut rawbuffer = None;
diff --git a/src/minolta.rs b/src/minolta.rs
index 1fecfa0..023fa54 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -195,9 +195,9 @@ impl RawFileImpl for MrwFile {
                 let buffer = if let Some(preview) = makernote.entry(exif::MNOTE_MINOLTA_THUMBNAIL) {
                     // e.data() is incorrect.
                     probe!(self.probe, "mrw.old_thumbnail", "true");
-                    preview
-                        .offset()
-                        .map(|offset| ifd.load_buffer8(offset as u64, preview.count as u64))
+                    preview.offset().and_then(|offset| {
+                        ifd.load_buffer8(offset as u64, preview.count as u64).ok()
+                    })
                 } else {
                     // Most file have offset and byte length in two tags.
                     let offset = makernote
@@ -207,7 +207,7 @@ impl RawFileImpl for MrwFile {
                         .uint_value(exif::MNOTE_MINOLTA_THUMBNAIL_LENGTH)
                         .unwrap_or(0);
                     if offset != 0 && length != 0 {
-                        Some(ifd.load_buffer8(offset as u64, length as u64))
+                        ifd.load_buffer8(offset as u64, length as u64).ok()
                     } else {
                         None
                     }
@@ -259,7 +259,7 @@ impl RawFileImpl for MrwFile {
             } as u64;
             let mut rawdata = if rawinfo.is_compressed {
                 probe!(self.probe, "mrw.packed", "true");
-                let raw = container.load_buffer8(cfa_offset, cfa_len);
+                let raw = container.load_buffer8(cfa_offset, cfa_len)?;
                 if skip_decompress {
                     RawImage::with_data8(
                         rawinfo.x,
@@ -286,7 +286,7 @@ impl RawFileImpl for MrwFile {
                     )
                 }
             } else {
-                let raw = container.load_buffer16_be(cfa_offset, cfa_len);
+                let raw = container.load_buffer16_be(cfa_offset, cfa_len)?;
                 RawImage::with_data16(
                     rawinfo.x,
                     rawinfo.y,
diff --git a/src/panasonic.rs b/src/panasonic.rs
index 890ff97..8815f6b 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -1007,7 +1007,7 @@ impl RawFileImpl for Rw2File {
             let (compression, mut raw_data) = match data_type {
                 DataType::CompressedRaw => {
                     let pattern = mosaic_pattern.unwrap_or_default();
-                    let buffer = self.container()?.load_buffer8(offset.offset, offset.len);
+                    let buffer = self.container()?.load_buffer8(offset.offset, offset.len)?;
                     if !skip_decompress && compression == Compression::PanasonicRaw1 {
                         decompress::panasonic_raw1(&buffer).ok().map(|raw| {
                             (
@@ -1037,7 +1037,7 @@ impl RawFileImpl for Rw2File {
                 DataType::Raw => {
                     let raw = if packed {
                         log::debug!("Panasonic: packed data");
-                        let raw = self.container()?.load_buffer8(offset.offset, offset.len);
+                        let raw = self.container()?.load_buffer8(offset.offset, offset.len)?;
                         let len = raw.len();
                         let mut buf = std::io::Cursor::new(raw);
                         crate::decompress::unpack_from_reader(
@@ -1057,7 +1057,7 @@ impl RawFileImpl for Rw2File {
                         // significant bits are discarded.
                         let mut buffer = self
                             .container()?
-                            .load_buffer16_le(offset.offset, offset.len);
+                            .load_buffer16_le(offset.offset, offset.len)?;
                         buffer.iter_mut().for_each(|v| *v >>= 4);
                         buffer
                     };
diff --git a/src/sony.rs b/src/sony.rs
index 1aaf383..5f37acc 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -1071,7 +1071,7 @@ impl ArwFile {
         let width = prd.x; //3881;
         let height = prd.y; //2608;
         let byte_len = width * height * 2;
-        let data = container.load_buffer8(offset as u64, byte_len as u64);
+        let data = container.load_buffer8(offset as u64, byte_len as u64)?;
 
         let mut rawimage = RawImage::with_data8(
             width,
diff --git a/src/tiff.rs b/src/tiff.rs
index cb08f9d..5a8d886 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -354,16 +354,16 @@ pub(crate) fn tiff_get_rawdata_with_endian(
                     // If we exceed file boundaries, return empty buffers
                     if *offset as u64 > container.borrow_view_mut().len() {
                         log::error!("TIFF: trying to load tile past EOF");
-                        vec![]
+                        Ok(vec![])
                     } else if *byte_len as u64 + *offset as u64 > container.borrow_view_mut().len()
                     {
                         log::error!("TIFF: byte length for tile exceed file size");
-                        vec![]
+                        Ok(vec![])
                     } else {
                         container.load_buffer8(*offset as u64, *byte_len as u64)
                     }
                 })
-                .collect();
+                .collect::<Result<Vec<_>>>()?;
             RawImage::new_tiled(
                 x,
                 y,
@@ -374,7 +374,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
                 mosaic_pattern.unwrap_or_default(),
             )
         } else {
-            let data = container.load_buffer8(offset as u64, byte_len as u64);
+            let data = container.load_buffer8(offset as u64, byte_len as u64)?;
             RawImage::with_data8(
                 x,
                 y,
@@ -386,9 +386,9 @@ pub(crate) fn tiff_get_rawdata_with_endian(
         }
     } else if bpc == 16 {
         let data = if endian == Endian::Big {
-            container.load_buffer16_be(offset as u64, byte_len as u64)
+            container.load_buffer16_be(offset as u64, byte_len as u64)?
         } else {
-            container.load_buffer16_le(offset as u64, byte_len as u64)
+            container.load_buffer16_le(offset as u64, byte_len as u64)?
         };
         RawImage::with_data16(
             x,
@@ -417,7 +417,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             mosaic_pattern.unwrap_or_default(),
         )
     } else if bpc == 8 {
-        let data = container.load_buffer8(offset as u64, byte_len as u64);
+        let data = container.load_buffer8(offset as u64, byte_len as u64)?;
         // XXX is this efficient?
         RawImage::with_data16(
             x,
-- 
2.43.0


From 80033e570a83a5a61fd081a784ba3538906c6d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:34 +0000
Subject: [PATCH 22/69] fix: crw: do not compute the model while the view is
 borrowed

---
 src/canon/crw.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index c5f4a41..b977554 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -151,6 +151,9 @@ impl CrwFile {
         // D30, G, S.
         let wb = heap.records().get(&ciff::Tag::ColourInfo1).and_then(|r| {
             if let ciff::Record::InHeap((pos, len)) = r.data {
+                // The model may have to be read from the container:
+                // do it before borrowing the view.
+                let offset = self.crw_wb_offset();
                 let mut view = container.borrow_view_mut();
                 match len {
                     768 => {
@@ -169,7 +172,6 @@ impl CrwFile {
                     }
                     769.. => {
                         // Pro, G6, S60, S70, S45, S50, G3, G5
-                        let offset = self.crw_wb_offset();
                         // magic values from rawspeed if not the default offset.
                         // Pro, G6, S60, S70
                         let key = if offset != Self::CRW_WB_DEFAULT_OFFSET {
-- 
2.43.0


From 208e5c4578a7e629bbe8c2196addce45111e6344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:26 +0000
Subject: [PATCH 23/69] fix: tiff: stop when the chain of directories loops

---
 src/tiff/container.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index 12e88c7..9ea0289 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -22,7 +22,7 @@
 //! The IFD Container. Contains the IFD `Dir`
 
 use std::cell::{RefCell, RefMut};
-use std::collections::HashMap;
+use std::collections::{BTreeSet, HashMap};
 use std::io::{Read, Seek, SeekFrom};
 
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
@@ -225,6 +225,7 @@ impl Container {
     pub(crate) fn dirs(&self) -> &Vec<Dir> {
         self.dirs.get_or_init(|| {
             let mut dirs = vec![];
+            let mut visited = BTreeSet::new();
 
             let mut index = 0_usize;
             let mut dir_offset = {
@@ -233,6 +234,10 @@ impl Container {
                 view.read_endian_u32(self.endian()).unwrap_or(0)
             };
             while dir_offset != 0 {
+                if !visited.insert(dir_offset) {
+                    error!("Directory at {dir_offset} was already read");
+                    break;
+                }
                 let t = if index < self.dir_map.len() {
                     self.dir_map[index]
                 } else {
-- 
2.43.0


From e85ad0eaf54506b50ff49c5f7d2cc577169f3d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:48 +0000
Subject: [PATCH 24/69] fix: mp4: limit the nesting of descriptors

---
 src/mp4/parse/mod.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/mp4/parse/mod.rs b/src/mp4/parse/mod.rs
index 4711a8f..e915ee1 100644
--- a/src/mp4/parse/mod.rs
+++ b/src/mp4/parse/mod.rs
@@ -4064,8 +4064,15 @@ fn read_flac_metadata<T: Read>(src: &mut BMFFBox<T>) -> Result<FLACMetadataBlock
     Ok(FLACMetadataBlock { block_type, data })
 }
 
+/// How deep the descriptors can be nested.
+const MAX_DESCRIPTOR_DEPTH: u32 = 8;
+
 /// See MPEG-4 Systems (ISO 14496-1:2010) § 7.2.6.5
-fn find_descriptor(data: &[u8], esds: &mut ES_Descriptor) -> Result<()> {
+fn find_descriptor(data: &[u8], esds: &mut ES_Descriptor, depth: u32) -> Result<()> {
+    if depth > MAX_DESCRIPTOR_DEPTH {
+        return Err(Error::InvalidData("Descriptors nested too deep."));
+    }
+
     // Tags for elementary stream description
     const ESDESCR_TAG: u8 = 0x03;
     const DECODER_CONFIG_TAG: u8 = 0x04;
@@ -4105,10 +4112,10 @@ fn find_descriptor(data: &[u8], esds: &mut ES_Descriptor) -> Result<()> {
 
         match tag {
             ESDESCR_TAG => {
-                read_es_descriptor(descriptor, esds)?;
+                read_es_descriptor(descriptor, esds, depth)?;
             }
             DECODER_CONFIG_TAG => {
-                read_dc_descriptor(descriptor, esds)?;
+                read_dc_descriptor(descriptor, esds, depth)?;
             }
             DECODER_SPECIFIC_TAG => {
                 read_ds_descriptor(descriptor, esds)?;
@@ -4316,7 +4323,7 @@ fn read_surround_channel_count(bit_reader: &mut BitReader, channels: u8) -> Resu
 }
 
 /// See MPEG-4 Systems (ISO 14496-1:2010) § 7.2.6.6
-fn read_dc_descriptor(data: &[u8], esds: &mut ES_Descriptor) -> Result<()> {
+fn read_dc_descriptor(data: &[u8], esds: &mut ES_Descriptor, depth: u32) -> Result<()> {
     let des = &mut Cursor::new(data);
     let object_profile = des.read_u8()?;
 
@@ -4332,7 +4339,11 @@ fn read_dc_descriptor(data: &[u8], esds: &mut ES_Descriptor) -> Result<()> {
     skip(des, 12)?;
 
     if data.len().to_u64() > des.position() {
-        find_descriptor(&data[des.position().try_into()?..data.len()], esds)?;
+        find_descriptor(
+            &data[des.position().try_into()?..data.len()],
+            esds,
+            depth + 1,
+        )?;
     }
 
     esds.audio_codec = match object_profile {
@@ -4350,7 +4361,7 @@ fn read_dc_descriptor(data: &[u8], esds: &mut ES_Descriptor) -> Result<()> {
 }
 
 /// See MPEG-4 Systems (ISO 14496-1:2010) § 7.2.6.5
-fn read_es_descriptor(data: &[u8], esds: &mut ES_Descriptor) -> Result<()> {
+fn read_es_descriptor(data: &[u8], esds: &mut ES_Descriptor, depth: u32) -> Result<()> {
     let des = &mut Cursor::new(data);
 
     skip(des, 2)?;
@@ -4371,7 +4382,11 @@ fn read_es_descriptor(data: &[u8], esds: &mut ES_Descriptor) -> Result<()> {
     }
 
     if data.len().to_u64() > des.position() {
-        find_descriptor(&data[des.position().try_into()?..data.len()], esds)?;
+        find_descriptor(
+            &data[des.position().try_into()?..data.len()],
+            esds,
+            depth + 1,
+        )?;
     }
 
     Ok(())
@@ -4384,7 +4399,7 @@ fn read_esds<T: Read>(src: &mut BMFFBox<T>) -> Result<ES_Descriptor> {
     let esds_array = read_buf(src, src.bytes_left())?;
 
     let mut es_data = ES_Descriptor::default();
-    find_descriptor(&esds_array, &mut es_data)?;
+    find_descriptor(&esds_array, &mut es_data, 0)?;
 
     es_data.codec_esds = esds_array;
 
-- 
2.43.0


From cd37d627c44376afbbcd1adb14681c710ef2fd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:23 +0000
Subject: [PATCH 25/69] fix: crw: limit the nesting of CIFF heaps

---
 src/canon/crw/ciff.rs           | 13 ++++++++++---
 src/canon/crw/ciff/container.rs | 21 ++++++++++++++++-----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index a3e231a..028cb1e 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -408,6 +408,7 @@ impl RecordEntry {
         out: &mut W,
         indent: u32,
         container: &Container,
+        depth: u32,
     ) {
         let type_ = self.type_();
         dump_writeln!(
@@ -449,8 +450,10 @@ impl RecordEntry {
                     }
                 }
                 RecordType::Heap1 | RecordType::Heap2 => {
-                    if let Some(RecordData::Heap(heap)) = self.data(container) {
-                        heap.write_dump(out, indent, container);
+                    if depth >= MAX_HEAP_DEPTH {
+                        log::error!("CIFF: heaps nested too deep");
+                    } else if let Some(RecordData::Heap(heap)) = self.data(container) {
+                        heap.write_dump(out, indent, container, depth + 1);
                     }
                 }
                 _ => {
@@ -471,6 +474,9 @@ pub(crate) struct Heap {
     records: BTreeMap<Tag, RecordEntry>,
 }
 
+/// How deep the heaps can be nested.
+pub(super) const MAX_HEAP_DEPTH: u32 = 5;
+
 impl Heap {
     pub fn new(pos: u32, len: u32) -> Heap {
         Heap {
@@ -525,13 +531,14 @@ impl Heap {
         out: &mut W,
         indent: u32,
         container: &Container,
+        depth: u32,
     ) {
         dump_writeln!(out, indent, "<HEAP pos={} len={}>", self.pos, self.len);
         {
             let indent = indent + 1;
             dump_writeln!(out, indent, "Num records: {}", self.records.len());
             for record in self.records().values() {
-                record.write_dump(out, indent, container);
+                record.write_dump(out, indent, container, depth);
             }
         }
         dump_writeln!(out, indent, "</HEAP");
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 65f9cc5..fdca367 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -304,7 +304,7 @@ impl Container {
             let mut exif_ifd = Dir::new(self.endian(), IfdType::Exif);
             if let Some(image_props) = self.image_props() {
                 image_props.records().iter().for_each(|(_, record)| {
-                    let entries = self.translate_record_entry(record, IfdType::Exif);
+                    let entries = self.translate_record_entry(record, IfdType::Exif, 0);
                     for entry in entries {
                         exif_ifd.entries.insert(entry.id, entry);
                     }
@@ -312,7 +312,7 @@ impl Container {
             }
             if let Some(exif_info) = self.exif_info() {
                 exif_info.records().iter().for_each(|(_, record)| {
-                    let entries = self.translate_record_entry(record, IfdType::Exif);
+                    let entries = self.translate_record_entry(record, IfdType::Exif, 0);
                     for entry in entries {
                         exif_ifd.entries.insert(entry.id, entry);
                     }
@@ -323,13 +323,24 @@ impl Container {
         })
     }
 
-    fn translate_record_entry(&self, record: &RecordEntry, ifd_type: IfdType) -> Vec<Entry> {
+    fn translate_record_entry(
+        &self,
+        record: &RecordEntry,
+        ifd_type: IfdType,
+        depth: u32,
+    ) -> Vec<Entry> {
         if record.is_heap() {
+            if depth >= super::MAX_HEAP_DEPTH {
+                log::error!("CIFF: heaps nested too deep");
+                return vec![];
+            }
             if let Some(heap) = record.heap(self) {
                 return heap
                     .records()
                     .iter()
-                    .flat_map(|(_, record)| self.translate_record_entry(record, ifd_type))
+                    .flat_map(|(_, record)| {
+                        self.translate_record_entry(record, ifd_type, depth + 1)
+                    })
                     .collect();
             }
         }
@@ -511,7 +522,7 @@ impl Dump for Container {
             header.write_dump(out, indent);
 
             let heap = self.heap();
-            heap.write_dump(out, indent, self);
+            heap.write_dump(out, indent, self, 0);
         }
         dump_writeln!(out, indent, "</CIFF Container>");
     }
-- 
2.43.0


From 65fb850d43938387e356175ffacbce9c1e5af24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:45 +0000
Subject: [PATCH 26/69] fix: metadata: iterate over the directories without
 recursion

A file with many directories without entries exhausted the stack.
---
 src/metadata.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index 0f66cd1..cdd818e 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -163,23 +163,26 @@ impl std::iter::Iterator for Iterator<'_> {
     type Item = Metadata;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let next = match self.inner {
-            InnerIter::Container(ref mut iter) => iter.next().and_then(|container| {
-                let mut iter = InnerIter::Ifd(container.iter());
-                std::mem::swap(&mut self.inner, &mut iter);
-                self.stack.push(iter);
-                self.next()
-            }),
-            InnerIter::Ifd(ref mut iter) => iter.next(),
-            InnerIter::Empty => return None,
-        };
-        if next.is_none() {
-            if let Some(iter) = self.stack.pop() {
-                self.inner = iter;
-                return self.next();
+        // A loop, as there can be any number of directories without entries.
+        loop {
+            let next = match self.inner {
+                InnerIter::Container(ref mut iter) => {
+                    if let Some(container) = iter.next() {
+                        let mut iter = InnerIter::Ifd(container.iter());
+                        std::mem::swap(&mut self.inner, &mut iter);
+                        self.stack.push(iter);
+                        continue;
+                    }
+                    None
+                }
+                InnerIter::Ifd(ref mut iter) => iter.next(),
+                InnerIter::Empty => None,
+            };
+            if next.is_some() {
+                return next;
             }
+            self.inner = self.stack.pop()?;
         }
-        next
     }
 }
 
-- 
2.43.0


From 70896a46e324e2ffda9c670701ff88f5351918cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 27/69] fix: crw: no white balance when it can't be read

---
 src/canon/crw.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index b977554..ce9eb98 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -99,12 +99,12 @@ impl CrwFile {
 
     const CRW_WB_DEFAULT_OFFSET: u64 = 120;
 
-    fn crw_wb_offset(&self) -> u64 {
-        let model_id = self.type_id().map(|id| id.1).unwrap_or(0);
-        match model_id {
+    fn crw_wb_offset(&self) -> Option<u64> {
+        let model_id = self.type_id().map(|id| id.1).ok()?;
+        Some(match model_id {
             canon_id::PRO1 | canon_id::G6 | canon_id::S60 | canon_id::S70 => 96,
             _ => Self::CRW_WB_DEFAULT_OFFSET,
-        }
+        })
     }
 
     fn get_white_balance(&self, heap: &Heap) -> Option<Vec<f64>> {
@@ -115,12 +115,12 @@ impl CrwFile {
             if let ciff::Record::InHeap((pos, _)) = r.data {
                 let mut view = container.borrow_view_mut();
                 view.seek(SeekFrom::Start(pos as u64)).ok()?;
-                let magic = view.read_endian_u16(container.endian()).unwrap_or(0);
+                let magic = view.read_endian_u16(container.endian()).ok()?;
                 if magic > 512 {
                     view.seek(SeekFrom::Start(pos as u64 + 120)).ok()?;
                     let mut wb_data = [0_u16; 4];
                     view.read_endian_u16_array(&mut wb_data, container.endian())
-                        .ok();
+                        .ok()?;
                     let g = wb_data[0] as f64;
                     Some(vec![
                         g / wb_data[2] as f64,
@@ -133,7 +133,7 @@ impl CrwFile {
                     view.seek(SeekFrom::Start(pos as u64 + 100)).ok()?;
                     let mut wb_data = [0_u16; 4];
                     view.read_endian_u16_array(&mut wb_data, container.endian())
-                        .ok();
+                        .ok()?;
                     let g = (wb_data[0] + wb_data[3]) as f64 / 2.0;
                     Some(vec![g / wb_data[1] as f64, 1.0, g / wb_data[2] as f64])
                 } else {
@@ -153,7 +153,7 @@ impl CrwFile {
             if let ciff::Record::InHeap((pos, len)) = r.data {
                 // The model may have to be read from the container:
                 // do it before borrowing the view.
-                let offset = self.crw_wb_offset();
+                let offset = self.crw_wb_offset()?;
                 let mut view = container.borrow_view_mut();
                 match len {
                     768 => {
@@ -183,7 +183,7 @@ impl CrwFile {
                         view.seek(SeekFrom::Start(pos as u64 + offset)).ok()?;
                         let mut wb_data = [0_u16; 3];
                         view.read_endian_u16_array(&mut wb_data, container.endian())
-                            .ok();
+                            .ok()?;
                         let r = (wb_data[1] ^ key.1) as f64;
                         let g = (wb_data[0] ^ key.0) as f64;
                         let b = (wb_data[2] ^ key.0) as f64;
-- 
2.43.0


From 6396f86215012abd2610ae7b214cb79af27ae95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 28/69] fix: crw: stop reading the records of a heap when one
 can't be read

---
 src/canon/crw/ciff.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index 028cb1e..b5f404d 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -508,14 +508,16 @@ impl Heap {
         view.seek(SeekFrom::Start(self.pos as u64 + heap_start as u64))?;
         let num_records = view.read_endian_u16(endian)?;
         for _ in 0..num_records {
-            let _ = RecordEntry::from_view(self.pos, view, endian)
-                .map(|entry| {
+            match RecordEntry::from_view(self.pos, view, endian) {
+                Ok(entry) => {
                     self.records.insert(entry.type_code, entry);
-                })
-                .map_err(|err| {
+                }
+                Err(err) => {
+                    // Whatever is next can't be a record.
                     log::error!("Failed to read record: {}", err);
-                    err
-                });
+                    break;
+                }
+            }
         }
 
         Ok(())
-- 
2.43.0


From 96f50150bcccec6df5373f7098df3a878a8d2f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 29/69] fix: nef: error when the curve length can't be read

---
 src/nikon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index 4ec14b8..4f35cea 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -362,7 +362,7 @@ impl NefFile {
                     return Err(Error::FormatError);
                 }
 
-                let nelems = view.read_endian_u16(container.endian()).unwrap_or(0);
+                let nelems = view.read_endian_u16(container.endian())?;
                 log::debug!("Num elems {}", nelems);
 
                 let mut ceiling: u16 = (1 << bpc) & 0x7fff;
-- 
2.43.0


From fb7d8e3d2456c45b84cf1cd689aaa5a8969b6dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 30/69] fix: tiff: no directories when their offset can't be
 read

---
 src/tiff/container.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index 9ea0289..5b83502 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -228,10 +228,17 @@ impl Container {
             let mut visited = BTreeSet::new();
 
             let mut index = 0_usize;
-            let mut dir_offset = {
+            let first = {
                 let mut view = self.view.borrow_mut();
-                view.seek(SeekFrom::Start(4)).expect("Seek failed");
-                view.read_endian_u32(self.endian()).unwrap_or(0)
+                view.seek(SeekFrom::Start(4))
+                    .and_then(|_| view.read_endian_u32(self.endian()))
+            };
+            let mut dir_offset = match first {
+                Ok(offset) => offset,
+                Err(err) => {
+                    error!("Can't read the offset of the first directory: {err}");
+                    return dirs;
+                }
             };
             while dir_offset != 0 {
                 if !visited.insert(dir_offset) {
-- 
2.43.0


From 17f4d685e4cedf56e1c43e9205c8547513431395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 31/69] fix: io: error when the length of the file can't be
 determined

---
 src/io.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index 0d66a98..8f2a26d 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -80,7 +80,8 @@ impl FromBuf for u16 {
 /// ```
 pub(crate) struct Viewer {
     inner: RefCell<Box<dyn ReadAndSeek>>,
-    length: u64,
+    /// Length. `None` if it couldn't be determined.
+    length: Option<u64>,
 }
 
 impl Viewer {
@@ -88,10 +89,13 @@ impl Viewer {
     pub fn new(mut inner: Box<dyn ReadAndSeek>, length: u64) -> Rc<Self> {
         let length = if length == 0 {
             log::warn!("Length of ZERO passed to Viewer::new()");
-            inner.seek(SeekFrom::End(0)).unwrap_or(0)
+            inner
+                .seek(SeekFrom::End(0))
+                .map_err(|err| log::error!("Couldn't get the length: {err}"))
+                .ok()
             // we assume the position will be reset.
         } else {
-            length
+            Some(length)
         };
 
         Rc::new(Viewer {
@@ -102,6 +106,12 @@ impl Viewer {
 
     /// Create a view at offset.
     pub fn create_view(viewer: &Rc<Viewer>, offset: u64) -> Result<View> {
+        if viewer.length.is_none() {
+            return Err(Error::from(std::io::Error::new(
+                ErrorKind::Other,
+                "create_view: unknown length.",
+            )));
+        }
         if offset > viewer.length() {
             return Err(Error::from(std::io::Error::new(
                 ErrorKind::Other,
@@ -132,8 +142,9 @@ impl Viewer {
             })
     }
 
+    /// The length. Nothing can be read when it couldn't be determined.
     pub fn length(&self) -> u64 {
-        self.length
+        self.length.unwrap_or(0)
     }
 
     /// Get the inner io to make an io call
-- 
2.43.0


From a16a7658167d9e449a57f02faf7734c5d612ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:21 +0000
Subject: [PATCH 32/69] fix: dump: no container to dump when it can't be loaded

---
 src/canon/cr2.rs |  4 +++-
 src/canon/cr3.rs |  4 +++-
 src/dng.rs       |  4 +++-
 src/epson.rs     |  4 +++-
 src/fujifilm.rs  |  4 +++-
 src/jpeg.rs      |  4 +++-
 src/minolta.rs   |  4 +++-
 src/nikon.rs     |  4 +++-
 src/olympus.rs   |  4 +++-
 src/panasonic.rs | 25 +++++++++++++------------
 src/pentax.rs    |  4 +++-
 src/sony.rs      |  4 +++-
 12 files changed, 46 insertions(+), 23 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index 317ac13..47955d9 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -443,7 +443,9 @@ impl Dump for Cr2File {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Canon CR2 File>");
     }
diff --git a/src/canon/cr3.rs b/src/canon/cr3.rs
index 3f4a414..b7829ec 100644
--- a/src/canon/cr3.rs
+++ b/src/canon/cr3.rs
@@ -254,7 +254,9 @@ impl Dump for Cr3File {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Canon CR3 File>");
     }
diff --git a/src/dng.rs b/src/dng.rs
index f9103b0..7bb77b2 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -442,7 +442,9 @@ impl Dump for DngFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</DNG File>");
     }
diff --git a/src/epson.rs b/src/epson.rs
index a35f402..7282525 100644
--- a/src/epson.rs
+++ b/src/epson.rs
@@ -241,7 +241,9 @@ impl Dump for ErfFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Epson ERF File>");
     }
diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index f4a55ee..7458ed1 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -587,7 +587,9 @@ impl Dump for RafFile {
     fn write_dump<W: std::io::Write + ?Sized>(&self, out: &mut W, indent: u32) {
         dump_writeln!(out, indent, "<Fujifilm RAF File>");
         let _ = self.container();
-        self.container.get().unwrap().write_dump(out, indent + 1);
+        if let Some(container) = self.container.get() {
+            container.write_dump(out, indent + 1);
+        }
         dump_writeln!(out, indent, "</Fujfilm RAF File>");
     }
 }
diff --git a/src/jpeg.rs b/src/jpeg.rs
index a1a73b9..07fa8aa 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -146,7 +146,9 @@ impl Dump for JpegFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</JPEG File>");
     }
diff --git a/src/minolta.rs b/src/minolta.rs
index 023fa54..9725e03 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -333,7 +333,9 @@ impl Dump for MrwFile {
     fn write_dump<W: std::io::Write + ?Sized>(&self, out: &mut W, indent: u32) {
         dump_writeln!(out, indent, "<Minolta MRW File>");
         let _ = self.container();
-        self.container.get().unwrap().write_dump(out, indent + 1);
+        if let Some(container) = self.container.get() {
+            container.write_dump(out, indent + 1);
+        }
         dump_writeln!(out, indent, "</Minolat MRW File>");
     }
 }
diff --git a/src/nikon.rs b/src/nikon.rs
index 4f35cea..af62de4 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -717,7 +717,9 @@ impl Dump for NefFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Nikon NEF File>");
     }
diff --git a/src/olympus.rs b/src/olympus.rs
index b1d629b..d3cb2d0 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -627,7 +627,9 @@ impl Dump for OrfFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
             if let Some(mnote) = self.maker_note_ifd() {
                 if let Some(dir) = self.olympus_cs_ifd(mnote) {
                     dir.write_dump(out, indent);
diff --git a/src/panasonic.rs b/src/panasonic.rs
index 8815f6b..92be12e 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -1193,18 +1193,19 @@ impl Dump for Rw2File {
         {
             let indent = indent + 1;
             let _ = self.container();
-            let container = self.container.get().unwrap();
-            container.write_dump(out, indent);
-            if let Some(camera_tiff) = self.main_ifd().and_then(|dir| {
-                // id = "PanasonicRaw.CameraIfd"
-                dir.tiff_in_entry(
-                    container,
-                    exif::RW2_TAG_CAMERA_IFD,
-                    Some(&RAW_CAMERAIFD_TAG_NAMES),
-                )
-            }) {
-                if let Some(camera_ifd) = camera_tiff.directory(0) {
-                    camera_ifd.write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+                if let Some(camera_tiff) = self.main_ifd().and_then(|dir| {
+                    // id = "PanasonicRaw.CameraIfd"
+                    dir.tiff_in_entry(
+                        container,
+                        exif::RW2_TAG_CAMERA_IFD,
+                        Some(&RAW_CAMERAIFD_TAG_NAMES),
+                    )
+                }) {
+                    if let Some(camera_ifd) = camera_tiff.directory(0) {
+                        camera_ifd.write_dump(out, indent);
+                    }
                 }
             }
         }
diff --git a/src/pentax.rs b/src/pentax.rs
index 56b48b7..3287c11 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -580,7 +580,9 @@ impl Dump for PefFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Pentax PEF File>");
     }
diff --git a/src/sony.rs b/src/sony.rs
index 5f37acc..33b71e0 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -1190,7 +1190,9 @@ impl Dump for ArwFile {
         {
             let indent = indent + 1;
             let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if let Some(container) = self.container.get() {
+                container.write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Sony ARW File>");
     }
-- 
2.43.0


From 33879660f8f20e928bbef3315f4b92224fabecba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:21 +0000
Subject: [PATCH 33/69] fix: mrw: error when there is no usable TTW block

---
 src/minolta.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index 9725e03..006b9c8 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -190,7 +190,7 @@ impl RawFileImpl for MrwFile {
             let mut thumbnails = vec![];
             self.container()?;
             if let Some(makernote) = self.ifd(tiff::IfdType::MakerNote) {
-                let ifd = self.container.get().unwrap().ifd_container();
+                let ifd = self.container.get().unwrap().ifd_container()?;
                 // Old files have the thumbnail in the Exif entry `MNOTE_MINOLTA_THUMBNAIL`.
                 let buffer = if let Some(preview) = makernote.entry(exif::MNOTE_MINOLTA_THUMBNAIL) {
                     // e.data() is incorrect.
@@ -235,7 +235,7 @@ impl RawFileImpl for MrwFile {
     /// block.
     fn ifd(&self, ifd_type: tiff::IfdType) -> Option<&tiff::Dir> {
         self.container().ok()?;
-        let ifd = self.container.get().unwrap().ifd_container();
+        let ifd = self.container.get().unwrap().ifd_container().ok()?;
         match ifd_type {
             tiff::IfdType::Raw | tiff::IfdType::Main => ifd.directory(0),
             tiff::IfdType::Exif => ifd.exif_dir(),
@@ -601,15 +601,14 @@ impl MrwContainer {
 
     /// Get the IFD container from the `TTW` block.
     /// All the Exif offsets are relative to the begining of the container.
-    fn ifd_container(&self) -> &tiff::Container {
-        self.ifd.get_or_init(|| {
-            let ttw = self.ttw.as_ref().expect("no TTW in the file");
-            let view = Viewer::create_subview(&self.view.borrow(), ttw.offset + 8)
-                .expect("Couldn't create view");
+    fn ifd_container(&self) -> Result<&tiff::Container> {
+        self.ifd.get_or_try_init(|| {
+            let ttw = self.ttw.as_ref().ok_or(Error::NotFound)?;
+            let view = Viewer::create_subview(&self.view.borrow(), ttw.offset + 8)?;
             let mut ifd = tiff::Container::new(view, vec![(IfdType::Main, None)], Type::Mrw);
-            ifd.load(None).expect("Failed to load IFD container");
+            ifd.load(None)?;
 
-            ifd
+            Ok(ifd)
         })
     }
 
@@ -716,7 +715,9 @@ impl RawContainer for MrwContainer {
     }
 
     fn dir_iterator(&self) -> metadata::Iterator {
-        self.ifd_container().dirs().iter().into()
+        self.ifd_container()
+            .map(|ifd| ifd.dirs().iter().into())
+            .unwrap_or_default()
     }
 }
 
@@ -813,7 +814,9 @@ impl Dump for MrwContainer {
                     dump_writeln!(out, indent, "<TTW @{}, len={}>", block.offset, block.length);
                     {
                         let indent = indent + 1;
-                        self.ifd_container().write_dump(out, indent);
+                        if let Ok(ifd) = self.ifd_container() {
+                            ifd.write_dump(out, indent);
+                        }
                     }
                     dump_writeln!(out, indent, "</TTW>");
                 }
-- 
2.43.0


From bc6f40a3634cf792f034c4c89769bdca472972df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:21 +0000
Subject: [PATCH 34/69] fix: sony: error when the A100 MRW block can't be
 loaded

---
 src/sony.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sony.rs b/src/sony.rs
index 33b71e0..0d8e9ca 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -826,10 +826,10 @@ impl ArwFile {
             .and_then(|entry| entry.value_array::<u8>(dir.endian()))
             .map(|bytes| u32::read::<LittleEndian>(&bytes))
             .ok_or(Error::NotFound)?;
-        let view = Viewer::create_view(&self.reader, offset as u64).expect("Created view");
+        let view = Viewer::create_view(&self.reader, offset as u64)?;
         let mut container = MrwContainer::new(view);
         container.set_endian(Endian::Little);
-        container.load().expect("Failed to load container");
+        container.load()?;
 
         Ok(container)
     }
-- 
2.43.0


From e318501addf296c988022f6e825dff91a883da9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:21 +0000
Subject: [PATCH 35/69] fix: cr3: no metadata block when it can't be loaded

---
 src/mp4/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mp4/container.rs b/src/mp4/container.rs
index 7e65ecf..3f0522f 100644
--- a/src/mp4/container.rs
+++ b/src/mp4/container.rs
@@ -182,7 +182,7 @@ impl Container {
                     let viewer = Viewer::new(cursor, length as u64);
                     if let Ok(view) = Viewer::create_view(&viewer, 0) {
                         let mut ifd = tiff::Container::new(view, vec![(t, None)], raw_type);
-                        ifd.load(None).expect("ifd load");
+                        ifd.load(None).ok()?;
                         return Some((viewer, ifd));
                     }
                 }
-- 
2.43.0


From 924af5c55dc43d3e0deb360d01ab10358620192a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:19 +0000
Subject: [PATCH 36/69] fix: crw: error when the header or the heap can't be
 loaded

---
 src/canon/crw.rs                |  2 +-
 src/canon/crw/ciff.rs           |  3 +-
 src/canon/crw/ciff/container.rs | 73 ++++++++++++---------------------
 3 files changed, 28 insertions(+), 50 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index ce9eb98..6b9a6ec 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -266,7 +266,7 @@ impl RawFileImpl for CrwFile {
         self.container
             .get_or_try_init(|| {
                 let view = Viewer::create_view(&self.reader, 0).context("Error creating view")?;
-                Ok(Box::new(ciff::Container::new(view)))
+                Ok(Box::new(ciff::Container::new(view)?))
             })
             .map(|b| b.as_ref() as &dyn RawContainer)
     }
diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index b5f404d..b5ba9d9 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -394,8 +394,7 @@ impl RecordEntry {
         if let Record::InHeap((pos, len)) = self.data {
             let mut heap = Heap::new(pos, len);
             let mut view = container.borrow_view_mut();
-            heap.load(&mut view, container.endian())
-                .expect("Failed to load heap");
+            heap.load(&mut view, container.endian()).ok()?;
             Some(heap)
         } else {
             None
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index fdca367..25c78c2 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -34,7 +34,7 @@ use crate::io::View;
 use crate::metadata;
 use crate::tiff::{exif, Dir, Entry, IfdType, TagType};
 use crate::utils;
-use crate::{Dump, Type};
+use crate::{Dump, Error, Result, Type};
 
 use super::{
     CameraSettings, Heap, HeapFileHeader, ImageSpec, Record, RecordData, RecordEntry, Tag,
@@ -180,10 +180,8 @@ fn translate_date(record: &RecordEntry, container: &Container, _: u16) -> Vec<En
 #[derive(Debug)]
 pub(crate) struct Container {
     view: RefCell<View>,
-    /// Endian of the container.
-    endian: RefCell<Endian>,
-    header: OnceCell<HeapFileHeader>,
-    heap: OnceCell<Heap>,
+    header: HeapFileHeader,
+    heap: Heap,
     image_props: OnceCell<Option<Heap>>,
     image_spec: OnceCell<Option<ImageSpec>>,
     camera_props: OnceCell<Option<Heap>>,
@@ -195,7 +193,7 @@ pub(crate) struct Container {
 
 impl RawContainer for Container {
     fn endian(&self) -> Endian {
-        *self.endian.borrow()
+        self.header.endian
     }
 
     fn borrow_view_mut(&self) -> RefMut<'_, View> {
@@ -213,20 +211,31 @@ impl RawContainer for Container {
 }
 
 impl Container {
-    /// Create a new container for the view.
-    pub(crate) fn new(view: View) -> Self {
-        Self {
+    /// Create a new container for the view. Will load the header and the heap.
+    pub(crate) fn new(mut view: View) -> Result<Self> {
+        let header = HeapFileHeader::from_view(&mut view)?;
+        if header.type_ != *b"HEAP" && header.sub_type != *b"CCDR" {
+            log::error!("Wrong CIFF header types");
+        }
+        let heaplen = view
+            .len()
+            .checked_sub(header.len as u64)
+            .ok_or(Error::FormatError)?;
+        // XXX heaplen should be < u32::MAX
+        let mut heap = Heap::new(header.len, heaplen as u32);
+        heap.load(&mut view, header.endian)?;
+
+        Ok(Self {
             view: RefCell::new(view),
-            endian: RefCell::new(Endian::Unset),
-            header: OnceCell::new(),
-            heap: OnceCell::new(),
+            header,
+            heap,
             image_props: OnceCell::new(),
             image_spec: OnceCell::new(),
             camera_props: OnceCell::new(),
             exif_info: OnceCell::new(),
             camera_settings: OnceCell::new(),
             dirs: OnceCell::new(),
-        }
+        })
     }
 
     fn endian_write_u32(&self, buf: &mut [u8], n: u32) {
@@ -247,8 +256,6 @@ impl Container {
 
     fn dirs(&self) -> &Vec<Dir> {
         self.dirs.get_or_init(|| {
-            self.header();
-
             let mut main_ifd = Dir::new(self.endian(), IfdType::Main);
             if let Some(image_spec) = self.image_spec() {
                 let mut buffer = [0u8; 4];
@@ -362,31 +369,8 @@ impl Container {
         Some(&self.dirs()[1])
     }
 
-    fn header(&self) -> &HeapFileHeader {
-        self.header.get_or_init(|| {
-            let mut view = self.borrow_view_mut();
-            let header = HeapFileHeader::from_view(&mut view).expect("Coudln't read file header");
-            self.endian.replace(header.endian);
-            header
-        })
-    }
-
     pub(crate) fn heap(&self) -> &Heap {
-        self.heap.get_or_init(|| {
-            let header = self.header();
-            if header.type_ != *b"HEAP" && header.sub_type != *b"CCDR" {
-                log::error!("Wrong CIFF header types");
-            }
-            let mut view = self.borrow_view_mut();
-            // XXX check that header.len < view.len()
-            let heaplen = view.len() - header.len as u64;
-            // XXX heaplen should be < u32::MAX
-            let mut heap = Heap::new(header.len, heaplen as u32);
-            heap.load(&mut view, self.endian())
-                .expect("Failed to load heap");
-
-            heap
-        })
+        &self.heap
     }
 
     fn heap_from_heap(&self, heap: &Heap, tag: super::Tag) -> Option<Heap> {
@@ -401,10 +385,7 @@ impl Container {
 
     fn image_props(&self) -> Option<&Heap> {
         self.image_props
-            .get_or_init(|| {
-                let heap = self.heap();
-                self.heap_from_heap(heap, super::Tag::ImageProps)
-            })
+            .get_or_init(|| self.heap_from_heap(&self.heap, super::Tag::ImageProps))
             .as_ref()
     }
 
@@ -518,11 +499,9 @@ impl Dump for Container {
         {
             let indent = indent + 1;
 
-            let header = self.header();
-            header.write_dump(out, indent);
+            self.header.write_dump(out, indent);
 
-            let heap = self.heap();
-            heap.write_dump(out, indent, self, 0);
+            self.heap.write_dump(out, indent, self, 0);
         }
         dump_writeln!(out, indent, "</CIFF Container>");
     }
-- 
2.43.0


From a11c3d4df770c845feed873cfcfcfd40cd9f88c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:30 +0000
Subject: [PATCH 37/69] fix: cr3: error when a track has no sample description,
 size or offset

---
 src/mp4/container.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mp4/container.rs b/src/mp4/container.rs
index 3f0522f..4611482 100644
--- a/src/mp4/container.rs
+++ b/src/mp4/container.rs
@@ -260,7 +260,7 @@ impl Container {
 
         let video = match track.stsd {
             // We assume there is only one.
-            Some(ref data) => &data.descriptions[0],
+            Some(ref data) => data.descriptions.first().ok_or(Error::FormatError)?,
             None => return Err(Error::FormatError),
         };
 
@@ -277,13 +277,13 @@ impl Container {
             if stsz.sample_size > 0 {
                 stsz.sample_size as u64
             } else {
-                stsz.sample_sizes[0] as u64
+                *stsz.sample_sizes.first().ok_or(Error::FormatError)? as u64
             }
         } else {
             0
         };
         track_info.offset = if let Some(ref stco) = track.stco {
-            stco.offsets[0]
+            *stco.offsets.first().ok_or(Error::FormatError)?
         } else {
             0
         };
-- 
2.43.0


From e1e6006b5ca9f4d37414dca74b13836dccc76293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:57 +0000
Subject: [PATCH 38/69] fix: raf: error when the compressed data is invalid or
 too short

---
 src/decompress/bit_reader.rs |  12 +-
 src/fujifilm/decompress.rs   | 225 ++++++++++++++++++-----------------
 2 files changed, 125 insertions(+), 112 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index 2862b05..f065ba8 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -50,14 +50,20 @@ pub(crate) trait BitReader {
         value
     }
 
-    #[inline]
+    #[cfg(test)]
     /// Consume all leading zeros.
     fn consume_zerobits(&mut self) -> u32 {
+        self.try_consume_zerobits().unwrap()
+    }
+
+    #[inline]
+    /// Consume all leading zeros, or fail when running out of data.
+    fn try_consume_zerobits(&mut self) -> Result<u32> {
         const NUM_BITS: u32 = u16::BITS - 1;
         let mut count = 0;
         loop {
             // u16::leading_zeros require at least one bit set.
-            let bits = (self.peek(NUM_BITS as u8).unwrap() << 1) | 0x1;
+            let bits = (self.peek(NUM_BITS as u8)? << 1) | 0x1;
             let n = bits.leading_zeros();
             self.consume(n as u8);
             count += n;
@@ -66,7 +72,7 @@ pub(crate) trait BitReader {
                 break;
             }
         }
-        count
+        Ok(count)
     }
 }
 
diff --git a/src/fujifilm/decompress.rs b/src/fujifilm/decompress.rs
index a1c2259..04f1036 100644
--- a/src/fujifilm/decompress.rs
+++ b/src/fujifilm/decompress.rs
@@ -235,19 +235,18 @@ impl Strip {
         params: &Params,
         q_bases: Option<&[u8]>,
         out: &mut ImageBuffer<u16>,
-    ) {
+    ) -> Result<()> {
         let mut info_block = CompressedBlock::new(header, params);
         log::debug!("Fuji strip offset: {}, len: {}", self.offset, self.size);
 
-        let mut pump = if self.offset + self.size == src.len() {
-            let cursor = std::io::Cursor::new(&src[self.offset..]);
-            BitReaderBe32::new(cursor)
-        } else {
-            let extra_bytes = 16;
-            let cursor =
-                std::io::Cursor::new(&src[self.offset..self.offset + self.size + extra_bytes]);
-            BitReaderBe32::new(cursor)
-        };
+        // The last strip doesn't have extra bytes after it.
+        let extra_bytes = 16;
+        let end = std::cmp::min(self.offset + self.size + extra_bytes, src.len());
+        let strip_src = src
+            .get(self.offset..end)
+            .filter(|strip_src| strip_src.len() >= self.size)
+            .ok_or_else(|| Error::Decompression("Fuji strip is truncated".into()))?;
+        let mut pump = BitReaderBe32::new(std::io::Cursor::new(strip_src));
 
         let mtable = [
             (XT_LINE_R0, XT_LINE_R3),
@@ -265,8 +264,8 @@ impl Strip {
         for cur_line in 0..self.height() as usize {
             debug_assert_eq!(header.is_lossless(), q_bases.is_none());
             // init grads and main qtable
-            if !header.is_lossless() {
-                let q_base = q_bases.as_ref().unwrap()[cur_line] as i32;
+            if let Some(q_bases) = q_bases {
+                let q_base = q_bases[cur_line] as i32;
                 if cur_line == 0 || q_base != params.qtables[0].q_base {
                     let max_value = (1 << header.raw_bits) - 1; // todo: put into header as function?
                     let main_qtable = Params::new_main_qtable(header, max_value, q_base);
@@ -290,9 +289,9 @@ impl Strip {
             }
 
             if header.raw_type == 16 {
-                info_block.fuji_xtrans_decode_block(&mut pump, &params);
+                info_block.fuji_xtrans_decode_block(&mut pump, &params)?;
             } else {
-                info_block.fuji_bayer_decode_block(&mut pump, &params);
+                info_block.fuji_bayer_decode_block(&mut pump, &params)?;
             }
 
             // copy data from line buffers and advance
@@ -322,6 +321,8 @@ impl Strip {
                     info_block.linebuf[i.0 - 1][params.line_width];
             }
         }
+
+        Ok(())
     }
 }
 
@@ -338,40 +339,33 @@ pub(super) fn decompress_fuji(
 ) -> Result<ImageBuffer<u16>> {
     let mut stream = std::io::Cursor::new(buf);
     let header = Header {
-        signature: stream.read_u16::<BigEndian>().unwrap(),
-        lossless: stream.read_u8().unwrap(),
-        raw_type: stream.read_u8().unwrap(),
-        raw_bits: stream.read_u8().unwrap(),
-        raw_height: stream.read_u16::<BigEndian>().unwrap(),
-        raw_rounded_width: stream.read_u16::<BigEndian>().unwrap(),
-        raw_width: stream.read_u16::<BigEndian>().unwrap(),
-        block_size: stream.read_u16::<BigEndian>().unwrap(),
-        blocks_in_row: stream.read_u8().unwrap(),
-        total_lines: stream.read_u16::<BigEndian>().unwrap(),
+        signature: stream.read_u16::<BigEndian>()?,
+        lossless: stream.read_u8()?,
+        raw_type: stream.read_u8()?,
+        raw_bits: stream.read_u8()?,
+        raw_height: stream.read_u16::<BigEndian>()?,
+        raw_rounded_width: stream.read_u16::<BigEndian>()?,
+        raw_width: stream.read_u16::<BigEndian>()?,
+        block_size: stream.read_u16::<BigEndian>()?,
+        blocks_in_row: stream.read_u8()?,
+        total_lines: stream.read_u16::<BigEndian>()?,
     };
     log::debug!("Header: {:?}", header);
     if !header.is_valid(corrected_cfa) {
         log::error!("Invalid header");
         return Err(Error::Decompression("Fuji header is not valid".into()));
     }
-    assert_eq!(
-        Size {
-            width: width as u32,
-            height: height as u32
-        },
-        Size {
-            width: header.raw_width.into(),
-            height: header.raw_height.into()
-        },
-        "RAF header specifies different dimensions!"
-    );
-
-    let params = Params::new(&header);
+    if width != header.raw_width as usize || height != header.raw_height as usize {
+        log::error!("RAF header specifies different dimensions!");
+        return Err(Error::Decompression("Fuji dimensions don't match".into()));
+    }
+
+    let params = Params::new(&header)?;
     log::debug!("Params: {:?}", params);
 
-    let block_sizes: Vec<usize> = (0..header.blocks_in_row)
-        .map(|_| stream.read_u32::<BigEndian>().unwrap() as usize)
-        .collect();
+    let block_sizes = (0..header.blocks_in_row)
+        .map(|_| stream.read_u32::<BigEndian>().map(|size| size as usize))
+        .collect::<std::io::Result<Vec<usize>>>()?;
     let raw_offset = header.blocks_in_row as usize * size_of::<u32>();
     let raw_offset_padded = (raw_offset + 0xF) & !0xF;
     stream.seek(SeekFrom::Current((raw_offset_padded - raw_offset) as i64))?;
@@ -380,48 +374,43 @@ pub(super) fn decompress_fuji(
     let q_bases: Option<Vec<u8>> = if !header.is_lossless() {
         let total_q_bases = block_sizes.len() * ((header.total_lines as usize + 0xF) & !0xF);
         let mut bytes = vec![0_u8; total_q_bases];
-        let byteslice = bytes.as_mut_slice();
-        if stream.read_exact(byteslice).is_ok() {
-            Some(bytes)
-        } else {
-            // XXX log
-            None
-        }
+        stream.read_exact(bytes.as_mut_slice())?;
+        Some(bytes)
     } else {
         None
     };
 
     // calculating raw block offsets
-    let strips: Vec<Strip> = block_sizes
+    let strips = block_sizes
         .iter()
         .enumerate()
         .map(|(n, &block_size)| {
             let strip = Strip {
-                offset: stream.stream_position().unwrap() as usize,
+                offset: stream.stream_position()? as usize,
                 size: block_size,
                 n,
                 header: header.clone(),
                 cfa: corrected_cfa.clone(),
             };
-            stream.seek(SeekFrom::Current(block_size as i64)).unwrap();
-            strip
+            stream.seek(SeekFrom::Current(block_size as i64))?;
+            Ok(strip)
         })
-        .collect();
+        .collect::<Result<Vec<Strip>>>()?;
 
     //  assert!(stream.remaining_bytes() <= 16);
 
     let out = SharedPix2D::new(ImageBuffer::new(width as u32, height as u32, 16, 1));
 
     // Process each strip
-    strips.par_iter().for_each(|strip| {
+    strips.par_iter().try_for_each(|strip| {
         let line_step = (header.total_lines as usize + 0xF) & !0xF;
         // Each strip has it's own q_bases
         let q_bases_strip = q_bases.as_ref().map(|buf| &buf[strip.n * line_step..]);
         // DANGEROUS: We need multiple mut refs here. This should be
         // safe as be only write pixels to pre-allocated memory.
         let outbuf = unsafe { out.inner_mut() };
-        strip.decompress_strip(buf, &header, &params, q_bases_strip, outbuf);
-    });
+        strip.decompress_strip(buf, &header, &params, q_bases_strip, outbuf)
+    })?;
 
     Ok(out.into_inner())
 }
@@ -589,7 +578,7 @@ impl CompressedBlock {
         &mut self,
         pump: &mut BitReaderBe32<T>,
         params: &Params,
-    ) {
+    ) -> Result<()> {
         let line_width = params.line_width;
         let mut colours = Colours::new();
 
@@ -608,7 +597,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.r().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                     fuji_decode_sample_even(
                         pump,
                         params,
@@ -616,7 +605,7 @@ impl CompressedBlock {
                         c1,
                         &mut colours.g().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
                 if colours.g().even > 8 {
                     fuji_decode_sample_odd(
@@ -626,7 +615,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.r().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                     fuji_decode_sample_odd(
                         pump,
                         params,
@@ -634,11 +623,12 @@ impl CompressedBlock {
                         c1,
                         &mut colours.g().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                 }
             }
             block.fuji_extend_red(line_width);
             block.fuji_extend_green(line_width);
+            Ok::<(), Error>(())
         };
 
         let pass_green_blue = |colours: &mut Colours,
@@ -656,7 +646,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.g().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                     fuji_decode_sample_even(
                         pump,
                         params,
@@ -664,7 +654,7 @@ impl CompressedBlock {
                         c1,
                         &mut colours.b().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
                 if colours.g().even > 8 {
                     fuji_decode_sample_odd(
@@ -674,7 +664,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.g().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                     fuji_decode_sample_odd(
                         pump,
                         params,
@@ -682,33 +672,36 @@ impl CompressedBlock {
                         c1,
                         &mut colours.b().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                 }
             }
             block.fuji_extend_green(line_width);
             block.fuji_extend_blue(line_width);
+            Ok::<(), Error>(())
         };
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R2, XT_LINE_G2, 0);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R2, XT_LINE_G2, 0)?;
         colours.g().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G3, XT_LINE_B2, 1);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G3, XT_LINE_B2, 1)?;
         colours.r().reset();
         colours.g().reset();
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R3, XT_LINE_G4, 2);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R3, XT_LINE_G4, 2)?;
         colours.g().reset();
         colours.b().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G5, XT_LINE_B3, 0);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G5, XT_LINE_B3, 0)?;
         colours.r().reset();
         colours.g().reset();
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R4, XT_LINE_G6, 1);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R4, XT_LINE_G6, 1)?;
         colours.g().reset();
         colours.b().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G7, XT_LINE_B4, 2);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G7, XT_LINE_B4, 2)?;
+
+        Ok(())
     }
 
     #[allow(clippy::too_many_arguments)]
@@ -723,7 +716,8 @@ impl CompressedBlock {
         c1: usize,
         grad: usize,
         even_func: F,
-    ) where
+    ) -> Result<()>
+    where
         F: Fn(
             &mut CompressedBlock,
             &mut BitReaderBe32<T>,
@@ -732,14 +726,14 @@ impl CompressedBlock {
             usize,
             &mut ColourPos,
             &mut ColourPos,
-        ),
+        ) -> Result<()>,
     {
         let line_width = params.line_width;
         while colours.g().even < line_width || colours.g().odd < line_width {
             if colours.g().even < line_width {
                 let mut c0_pos = *colours.at(C0);
                 let mut c1_pos = *colours.at(C1);
-                even_func(self, pump, c0, c1, grad, &mut c0_pos, &mut c1_pos);
+                even_func(self, pump, c0, c1, grad, &mut c0_pos, &mut c1_pos)?;
                 *colours.at(C0) = c0_pos; // Write back
                 *colours.at(C1) = c1_pos;
             }
@@ -751,7 +745,7 @@ impl CompressedBlock {
                     c0,
                     &mut colours.at(C0).odd,
                     &mut self.grad_odd[grad],
-                );
+                )?;
                 fuji_decode_sample_odd(
                     pump,
                     params,
@@ -759,9 +753,11 @@ impl CompressedBlock {
                     c1,
                     &mut colours.at(C1).odd,
                     &mut self.grad_odd[grad],
-                );
+                )?;
             }
         }
+
+        Ok(())
     }
 
     /// Decode X-Trans pattern from block
@@ -769,7 +765,7 @@ impl CompressedBlock {
         &mut self,
         pump: &mut BitReaderBe32<T>,
         params: &Params,
-    ) {
+    ) -> Result<()> {
         let mut colours = Colours::new();
         let line_width = params.line_width;
 
@@ -790,9 +786,10 @@ impl CompressedBlock {
                     c1,
                     &mut c1_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -813,10 +810,11 @@ impl CompressedBlock {
                     c0,
                     &mut c0_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
                 fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
         colours.r().reset();
@@ -839,13 +837,14 @@ impl CompressedBlock {
                         c0,
                         &mut c0_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 } else {
                     fuji_decode_interpolation_even(block, c0, &mut c0_pos.even);
                 }
                 fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -867,7 +866,7 @@ impl CompressedBlock {
                     c0,
                     &mut c0_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
 
                 if c1_pos.even & 3 == 2 {
                     fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
@@ -879,10 +878,11 @@ impl CompressedBlock {
                         c1,
                         &mut c1_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
         colours.r().reset();
@@ -907,7 +907,7 @@ impl CompressedBlock {
                         c0,
                         &mut c0_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
 
                 fuji_decode_sample_even(
@@ -917,9 +917,10 @@ impl CompressedBlock {
                     c1,
                     &mut c1_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -944,14 +945,17 @@ impl CompressedBlock {
                         c1,
                         &mut c1_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 } else {
                     fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
                 }
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
+
+        Ok(())
     }
 
     fn fuji_extend_generic(&mut self, line_width: usize, start: usize, end: usize) {
@@ -1054,11 +1058,11 @@ impl Params {
     }
 
     /// Create new parameter
-    fn new(header: &Header) -> Self {
+    fn new(header: &Header) -> Result<Self> {
         if (header.block_size % 3 != 0 && header.raw_type == 16)
             || (header.block_size & 1 != 0 && header.raw_type == 0)
         {
-            panic!("Invalid FUJI header");
+            return Err(Error::Decompression("Invalid Fuji header".into()));
         }
         let min_value = 0x40;
         let max_value = (1 << header.raw_bits) - 1;
@@ -1127,24 +1131,23 @@ impl Params {
             qtables
         };
 
-        Self {
+        Ok(Self {
             qtables,
             max_bits,
             min_value,
             max_value,
             line_width,
-        }
+        })
     }
 }
 
 /// Count and consume all zero bits
 /// Additionally, consume the first 1 bit.
 #[inline(always)]
-fn fuji_zerobits<T: std::io::Read>(pump: &mut BitReaderBe32<T>) -> u32 {
-    let count = pump.consume_zerobits();
-    debug_assert_eq!(pump.peek(1).unwrap(), 1);
-    pump.consume(1); // consume the next bit which is 0b1
-    count
+fn fuji_zerobits<T: std::io::Read>(pump: &mut BitReaderBe32<T>) -> Result<u32> {
+    let count = pump.try_consume_zerobits()?;
+    pump.get_bits(1)?; // consume the next bit which is 0b1
+    Ok(count)
 }
 
 /// Calculate bit difference between two values
@@ -1177,22 +1180,22 @@ fn read_code<T: std::io::Read>(
     params: &Params,
     gradient: &mut Gradient,
     q_table: &QTable,
-) -> i32 {
-    let sample = fuji_zerobits(pump);
+) -> Result<i32> {
+    let sample = fuji_zerobits(pump)?;
     let mut code: i32 = if (sample as usize) < params.max_bits - q_table.raw_bits - 1 {
         let dec_bits = bit_diff(gradient.0, gradient.1);
         let extra_bits = if dec_bits == 0 {
             0
         } else {
-            pump.get_bits(dec_bits).unwrap() as i32
+            pump.get_bits(dec_bits)? as i32
         };
         (sample << dec_bits) as i32 + extra_bits
     } else {
-        1 + pump.get_bits(q_table.raw_bits as u8).unwrap() as i32
+        1 + pump.get_bits(q_table.raw_bits as u8)? as i32
     };
     // Validate code
     if code < 0 || code >= q_table.total_values {
-        panic!("Invalid code: {}", code);
+        return Err(Error::Decompression(format!("Invalid code: {code}")));
     }
     // Adjust code
     if (code & 1) != 0 {
@@ -1207,7 +1210,7 @@ fn read_code<T: std::io::Read>(
         gradient.1 >>= 1;
     }
     gradient.1 += 1;
-    code
+    Ok(code)
 }
 
 /// Decode samples for even positions
@@ -1218,7 +1221,7 @@ fn fuji_decode_sample_even<T: std::io::Read>(
     line: usize,
     pos: &mut usize,
     grads: &mut GradientList,
-) {
+) -> Result<()> {
     // Line -2 |   | f |   |
     // Line -1 | c | b | d |
     // Line  0 | a | x | g |
@@ -1259,7 +1262,7 @@ fn fuji_decode_sample_even<T: std::io::Read>(
         params,
         &mut gradients[grad.unsigned_abs() as usize],
         qtable,
-    );
+    )?;
 
     // Adjustments specific to even positions
     if grad < 0 {
@@ -1282,6 +1285,8 @@ fn fuji_decode_sample_even<T: std::io::Read>(
     }
 
     *pos += 2;
+
+    Ok(())
 }
 
 /// Decode samples for odd positions
@@ -1292,7 +1297,7 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
     line: usize,
     pos: &mut usize,
     grads: &mut GradientList,
-) {
+) -> Result<()> {
     // Line -2 |   | f |   |
     // Line -1 | c | b | d |
     // Line  0 | a | x | g |
@@ -1331,7 +1336,7 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
         params,
         &mut gradients[grad.unsigned_abs() as usize],
         qtable,
-    );
+    )?;
 
     // Adjustments specific to odd positions
     if grad < 0 {
@@ -1354,6 +1359,8 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
     }
 
     *pos += 2;
+
+    Ok(())
 }
 
 /// Interpolate x value from surrounding pixels
-- 
2.43.0


From 27e0d9e7be5373250800829cfd685c8b891f55c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:31 +0000
Subject: [PATCH 39/69] fix: an unknown colour in a pattern is an error

---
 src/fujifilm/decompress.rs | 40 ++++++++++++++++++++++++++++----------
 src/mosaic.rs              |  2 +-
 2 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/fujifilm/decompress.rs b/src/fujifilm/decompress.rs
index 04f1036..7c9da23 100644
--- a/src/fujifilm/decompress.rs
+++ b/src/fujifilm/decompress.rs
@@ -36,7 +36,7 @@ use rayon::prelude::*;
 use crate::bitmap::ImageBuffer;
 use crate::decompress::bit_reader::{BitReader, BitReaderBe32};
 use crate::mosaic::{Pattern, PatternColour};
-use crate::{Error, Result, Size};
+use crate::{Error, Result};
 
 /// Calculate the required bits to encode as many states.
 pub fn log2ceil(mut states: usize) -> usize {
@@ -303,9 +303,9 @@ impl Strip {
             }
 
             if header.raw_type == 16 {
-                info_block.copy_line_to_xtrans(self, cur_line, out);
+                info_block.copy_line_to_xtrans(self, cur_line, out)?;
             } else {
-                info_block.copy_line_to_bayer(self, cur_line, out);
+                info_block.copy_line_to_bayer(self, cur_line, out)?;
             }
 
             for i in ztable.iter() {
@@ -520,7 +520,13 @@ impl CompressedBlock {
     }
 
     /// Copy line from decoding buffer to output
-    fn copy_line<F>(&self, strip: &Strip, cur_line: usize, index_f: F, out: &mut ImageBuffer<u16>)
+    fn copy_line<F>(
+        &self,
+        strip: &Strip,
+        cur_line: usize,
+        index_f: F,
+        out: &mut ImageBuffer<u16>,
+    ) -> Result<()>
     where
         F: Fn(usize) -> usize,
     {
@@ -538,7 +544,7 @@ impl CompressedBlock {
         let cfa_width = strip.cfa.width();
         let cfa_height = strip.cfa.height();
         if cfa_width == 0 || cfa_height == 0 {
-            return;
+            return Ok(());
         }
         for row_count in 0..Strip::line_height() {
             for pixel_count in 0..strip.width() {
@@ -546,7 +552,9 @@ impl CompressedBlock {
                     PatternColour::Red => line_buf_r[row_count >> 1],
                     PatternColour::Green => line_buf_g[row_count],
                     PatternColour::Blue => line_buf_b[row_count >> 1],
-                    _ => unreachable!(),
+                    PatternColour::Unknown => {
+                        return Err(Error::Decompression("Unknown colour in the CFA".into()))
+                    }
                 };
                 let p = self.linebuf[line_idx][1 + index_f(pixel_count)];
                 *out.mut_pixel_at(
@@ -556,21 +564,33 @@ impl CompressedBlock {
                 ) = p;
             }
         }
+
+        Ok(())
     }
 
     /// Copy line by Bayer pattern
-    fn copy_line_to_bayer(&self, strip: &Strip, cur_line: usize, out: &mut ImageBuffer<u16>) {
+    fn copy_line_to_bayer(
+        &self,
+        strip: &Strip,
+        cur_line: usize,
+        out: &mut ImageBuffer<u16>,
+    ) -> Result<()> {
         let index = |pixel_count: usize| -> usize { pixel_count >> 1 };
-        self.copy_line(strip, cur_line, index, out);
+        self.copy_line(strip, cur_line, index, out)
     }
 
     /// Copy line by X-Trans pattern
-    fn copy_line_to_xtrans(&self, strip: &Strip, cur_line: usize, out: &mut ImageBuffer<u16>) {
+    fn copy_line_to_xtrans(
+        &self,
+        strip: &Strip,
+        cur_line: usize,
+        out: &mut ImageBuffer<u16>,
+    ) -> Result<()> {
         let index = |pixel_count: usize| -> usize {
             (((pixel_count * 2 / 3) & 0x7FFFFFFE) | ((pixel_count % 3) & 1))
                 + ((pixel_count % 3) >> 1)
         };
-        self.copy_line(strip, cur_line, index, out);
+        self.copy_line(strip, cur_line, index, out)
     }
 
     /// Decode Bayer pattern (RGGB and the like) from block
diff --git a/src/mosaic.rs b/src/mosaic.rs
index 201589b..4395954 100644
--- a/src/mosaic.rs
+++ b/src/mosaic.rs
@@ -65,7 +65,7 @@ impl PatternColour {
             Self::Red => 'R',
             Self::Green => 'G',
             Self::Blue => 'B',
-            _ => unreachable!(),
+            Self::Unknown => '?',
         }
     }
 }
-- 
2.43.0


From 7860a1aa44f549b1da66e380f8dd527b3303d2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:13 +0000
Subject: [PATCH 40/69] fix: a file extension that isn't UTF-8 is of no known
 type

---
 src/rawfile.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rawfile.rs b/src/rawfile.rs
index cc7349f..5067480 100644
--- a/src/rawfile.rs
+++ b/src/rawfile.rs
@@ -127,7 +127,8 @@ where
     let file_path = filename.as_ref();
     file_path
         .extension()
-        .and_then(|e| identify::type_for_extension(e.to_ascii_lowercase().to_str().unwrap()))
+        .and_then(|e| e.to_str())
+        .and_then(|e| identify::type_for_extension(&e.to_ascii_lowercase()))
 }
 
 /// Crate RawFile object from IO.
-- 
2.43.0


From e4b2dfa429b336d95942c32ff2c0e20b152417c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:13 +0000
Subject: [PATCH 41/69] fix: error when the colour matrix can't be used

---
 src/rawimage.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/rawimage.rs b/src/rawimage.rs
index 8e2378f..1dea21b 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -475,17 +475,19 @@ impl RawImage {
     /// Calculate the camera to RGB colour matrix using `cm`
     ///
     /// Currently analog balance and camera calibration are identity matrices
-    pub fn calculate_cam_rgb(cm: &Matrix3<f64>) -> Matrix3<f64> {
+    ///
+    /// Return `None` if `cm` can't be inverted.
+    pub fn calculate_cam_rgb(cm: &Matrix3<f64>) -> Option<Matrix3<f64>> {
         // Camera calibration
         let cc = Matrix3::<f64>::identity();
         // Analog  balance
         let ab = Matrix3::<f64>::identity();
         let xyz_camera = ab * cc * cm;
-        let cam_xyz = xyz_camera.try_inverse().unwrap();
+        let cam_xyz = xyz_camera.try_inverse()?;
         // XYZ to RGB <https://en.wikipedia.org/wiki/SRGB#From_CIE_XYZ_to_sRGB>
         let xyz_rgb =
             matrix![ 3.2406, -1.5372, -0.4986; -0.9689, 1.8758, 0.0415; 0.0557, -0.2040, 1.0570];
-        xyz_rgb * cam_xyz
+        Some(xyz_rgb * cam_xyz)
     }
 
     pub(crate) fn colour_correct(
@@ -503,7 +505,7 @@ impl RawImage {
         for i in 1..=2 {
             cm = self
                 .colour_matrix(i)
-                .filter(|m| m.illuminant == exif::LightsourceValue::D65)
+                .filter(|m| m.illuminant == exif::LightsourceValue::D65 && m.matrix.len() == 9)
                 .map(|m| Matrix3::from_row_slice(&m.matrix));
             if cm.is_some() {
                 break;
@@ -511,7 +513,7 @@ impl RawImage {
         }
         if let Some(cm) = cm {
             log::debug!("Calculating cam RGB");
-            let cam_rgb = Self::calculate_cam_rgb(&cm);
+            let cam_rgb = Self::calculate_cam_rgb(&cm).ok_or(Error::InvalidFormat)?;
             log::debug!("pixel cam at 1000, 1000: {:?}", buffer.pixel_at(1000, 1000));
             log::debug!("Applying colour matrix");
             for row in 0..height {
-- 
2.43.0


From 1f9609f95e4a473030f9204a2270570fda6ce42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:10 +0000
Subject: [PATCH 42/69] fix: error when a compression can't be unpacked

---
 src/decompress.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/decompress.rs b/src/decompress.rs
index b13acdb..b625bfd 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -263,12 +263,15 @@ pub(crate) fn unpack_from_reader(
                     tiff::Compression::None => match endian {
                         Endian::Little => unpack_le12to16(&block, &mut out_data, compression)?,
                         Endian::Big => unpack_be12to16(&block, &mut out_data, compression)?,
-                        _ => unreachable!(),
+                        Endian::Unset => return Err(Error::InvalidParam),
                     },
                     tiff::Compression::Olympus | tiff::Compression::PanasonicRaw1 => {
                         unpack_le12to16(&block, &mut out_data, compression)?
                     }
-                    _ => unreachable!(),
+                    _ => {
+                        log::warn!("Can't unpack compression {:?}", compression);
+                        return Err(Error::NotSupported);
+                    }
                 }
             }
             _ => unreachable!(),
-- 
2.43.0


From 92c16abdc0b4e50b4e05355615b7f5a49d922280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:11 +0000
Subject: [PATCH 43/69] fix: mp4: no panic when logging a box without an uuid

---
 src/mp4/parse/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mp4/parse/mod.rs b/src/mp4/parse/mod.rs
index e915ee1..def4fe2 100644
--- a/src/mp4/parse/mod.rs
+++ b/src/mp4/parse/mod.rs
@@ -3302,10 +3302,7 @@ fn read_moov<T: Read>(f: &mut BMFFBox<T>, context: Option<MediaContext>) -> Resu
                     }
                 }
                 if !box_known {
-                    debug!(
-                        "Unknown UUID box {:?} (skipping)",
-                        b.head.uuid.as_ref().unwrap()
-                    );
+                    debug!("Unknown UUID box {:?} (skipping)", b.head.uuid);
                     skip_box_content(&mut b)?;
                 }
             }
-- 
2.43.0


From ef6dfa62b34e6d89c464d82079f1eab7a4082d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:07 +0000
Subject: [PATCH 44/69] fix: crw: don't allocate more than what the file has

The length of a CIFF record is from the file. Check it against the
length of the view before allocating a buffer for it.
---
 src/canon/crw.rs                |  1 +
 src/canon/crw/ciff.rs           | 12 ++++++++----
 src/canon/crw/ciff/container.rs |  6 ++++--
 src/io.rs                       |  9 +++++++++
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index 6b9a6ec..62685c9 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -366,6 +366,7 @@ impl RawFileImpl for CrwFile {
                             // XXX pattern is RGGB
                             if skip_decompression {
                                 let mut view = container.borrow_view_mut();
+                                view.check_available(pos as u64, len as u64)?;
                                 view.seek(SeekFrom::Start(pos as u64))?;
                                 let mut data = vec![0; len as usize];
                                 view.read_exact(&mut data)?;
diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index b5ba9d9..b1a9123 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -348,16 +348,18 @@ impl RecordEntry {
             Record::InRec(_) => self.inline_data(container),
             Record::InHeap((pos, len)) => match self.type_() {
                 RecordType::Byte | RecordType::Byte2 => {
-                    let mut bytes = vec![0; len as usize];
                     let mut view = container.borrow_view_mut();
+                    view.check_available(pos as u64, len as u64).ok()?;
+                    let mut bytes = vec![0; len as usize];
                     view.seek(SeekFrom::Start(pos as u64))
                         .and_then(|_| view.read_exact(&mut bytes))
                         .ok()
                         .map(|_| RecordData::Byte(bytes))
                 }
                 RecordType::Ascii => {
-                    let mut s = vec![0; len as usize];
                     let mut view = container.borrow_view_mut();
+                    view.check_available(pos as u64, len as u64).ok()?;
+                    let mut s = vec![0; len as usize];
                     view.seek(SeekFrom::Start(pos as u64)).ok()?;
                     view.read_exact(&mut s).ok()?;
                     Some(RecordData::Ascii(
@@ -368,8 +370,9 @@ impl RecordEntry {
                 }
                 RecordType::Word => {
                     let count = self.count()?;
-                    let mut values = vec![0_u16; count as usize];
                     let mut view = container.borrow_view_mut();
+                    view.check_available(pos as u64, len as u64).ok()?;
+                    let mut values = vec![0_u16; count as usize];
                     view.seek(SeekFrom::Start(pos as u64)).ok()?;
                     view.read_endian_u16_array(&mut values, container.endian())
                         .ok()?;
@@ -377,8 +380,9 @@ impl RecordEntry {
                 }
                 RecordType::DWord => {
                     let count = self.count()?;
-                    let mut values = vec![0_u32; count as usize];
                     let mut view = container.borrow_view_mut();
+                    view.check_available(pos as u64, len as u64).ok()?;
+                    let mut values = vec![0_u32; count as usize];
                     view.seek(SeekFrom::Start(pos as u64)).ok()?;
                     view.read_endian_u32_array(&mut values, container.endian())
                         .ok()?;
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 25c78c2..7dec3e5 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -438,8 +438,9 @@ impl Container {
                 .get(&super::Tag::RawMakeModel)
                 .and_then(|r| {
                     if let Record::InHeap((pos, len)) = r.data {
-                        let mut s = vec![0; len as usize];
                         let mut view = self.borrow_view_mut();
+                        view.check_available(pos as u64, len as u64).ok()?;
+                        let mut s = vec![0; len as usize];
                         view.seek(SeekFrom::Start(pos as u64)).ok()?;
                         view.read_exact(&mut s).ok()?;
                         let mut s = s.split(|b| *b == 0);
@@ -467,8 +468,9 @@ impl Container {
                         .get(&super::Tag::CameraSettings)
                         .and_then(|r| {
                             let count = r.count()?;
-                            if let Record::InHeap((pos, _)) = r.data {
+                            if let Record::InHeap((pos, len)) = r.data {
                                 let mut view = self.borrow_view_mut();
+                                view.check_available(pos as u64, len as u64).ok()?;
                                 view.seek(SeekFrom::Start(pos as u64)).ok()?;
                                 let mut settings = vec![0_u16; count as usize];
                                 view.read_endian_u16_array(&mut settings, self.endian())
diff --git a/src/io.rs b/src/io.rs
index 8f2a26d..e4ed952 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -247,6 +247,15 @@ impl View {
         self.length
     }
 
+    /// Check that there are `len` bytes at `pos`.
+    pub(crate) fn check_available(&self, pos: u64, len: u64) -> std::io::Result<()> {
+        if len > self.length.saturating_sub(pos) {
+            log::error!("{len} bytes at {pos} go past the end");
+            return Err(std::io::Error::from(ErrorKind::UnexpectedEof));
+        }
+        Ok(())
+    }
+
     #[cfg(feature = "dump")]
     pub(crate) fn offset(&self) -> u64 {
         self.offset
-- 
2.43.0


From 9722205dc9147124df5a5246f9f484457bcbc938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:39 +0000
Subject: [PATCH 45/69] fix: limit the size of the images

The dimensions are from the file. Return an error if the image would be
unreasonably large instead of trying to allocate the buffer for it.
---
 src/canon/crw/decompress.rs |  4 +++-
 src/decompress.rs           |  6 +++++-
 src/decompress/ljpeg.rs     | 11 ++++++-----
 src/decompress/tiled.rs     |  2 ++
 src/fujifilm.rs             | 23 +++++++++++------------
 src/fujifilm/decompress.rs  |  3 +++
 src/minolta.rs              |  4 +++-
 src/nikon.rs                |  4 ++--
 src/olympus.rs              |  1 +
 src/olympus/decompress.rs   |  3 ++-
 src/pentax/decompress.rs    |  3 ++-
 src/render/demosaic.rs      |  7 ++++---
 src/utils.rs                | 17 +++++++++++++++++
 13 files changed, 61 insertions(+), 27 deletions(-)

diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index 0787e60..abe679c 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -25,6 +25,7 @@ use byteorder::ReadBytesExt;
 
 use crate::mosaic::Pattern;
 use crate::rawfile::ReadAndSeek;
+use crate::utils;
 use crate::{DataType, Error, RawImage, Result};
 
 const FIRST_TREE: [[u8; 29]; 3] = [
@@ -252,7 +253,8 @@ impl Decompress {
         if self.width == 0 || self.height == 0 {
             return Err(Error::Decompression("CRW: no dimensions".into()));
         }
-        let mut data = Vec::with_capacity(self.width as usize * self.height as usize);
+        let mut data =
+            Vec::with_capacity(utils::image_len(self.width as usize, self.height as usize)?);
 
         let lowbits = if canon_has_lowbits(reader)? { 1 } else { 0 };
         reader.seek(SeekFrom::Start(
diff --git a/src/decompress.rs b/src/decompress.rs
index b625bfd..8d2e4cc 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -33,6 +33,7 @@ use std::io::{Read, Seek, SeekFrom};
 
 use crate::container::{Endian, RawContainer};
 use crate::tiff;
+use crate::utils;
 use crate::{Error, Result};
 use bit_reader::BitReader;
 
@@ -243,8 +244,11 @@ pub(crate) fn unpack_from_reader(
         }
     };
     log::debug!("Block size = {}", block_size);
+    if height == 0 {
+        return Ok(vec![]);
+    }
+    let out_size = utils::image_len(width as usize, height as usize)?;
     let mut block = vec![0; block_size];
-    let out_size = width as usize * height as usize;
     let mut out_data = Vec::with_capacity(out_size);
     let mut fetched = 0_usize;
     let mut written = 0_usize;
diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 90606a9..a42bcec 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -59,6 +59,7 @@
 use super::bit_reader::{BitReader, LJpegBitReader};
 use super::sliced_buffer::SlicedBuffer;
 use crate::bitmap::ImageBuffer;
+use crate::utils;
 use crate::{Error, Result};
 
 const M_SOF0: u8 = 0xc0;
@@ -188,17 +189,17 @@ impl LJpeg {
                 dc_info.num_components
             )));
         }
+        let len = utils::image_len(
+            dc_info.image_width as usize * dc_info.num_components as usize,
+            dc_info.image_height as usize,
+        )?;
         let bpc = dc_info.data_precision;
         let mut output: SlicedBuffer<ComponentType> = SlicedBuffer::new(
             dc_info.image_width as u32 * dc_info.num_components as u32,
             dc_info.image_height as u32,
             self.slices.clone().as_deref(),
         );
-        output.reserve(
-            dc_info.image_width as usize
-                * dc_info.image_height as usize
-                * dc_info.num_components as usize,
-        );
+        output.reserve(len);
         log::debug!(
             "dc width = {} dc height = {}",
             dc_info.image_width,
diff --git a/src/decompress/tiled.rs b/src/decompress/tiled.rs
index 052f74e..1e9c470 100644
--- a/src/decompress/tiled.rs
+++ b/src/decompress/tiled.rs
@@ -24,6 +24,7 @@
 use rayon::prelude::*;
 
 use crate::bitmap::Bitmap;
+use crate::utils;
 use crate::{DataType, RawImage, Result};
 
 use super::ljpeg::{LJpeg, Tile};
@@ -85,6 +86,7 @@ impl TiledLJpeg {
     ) -> Result<RawImage> {
         if let Some(tiles) = rawdata.tile_data() {
             probe!(probe, "ljpeg.tiled", "true");
+            utils::image_len(rawdata.width() as usize, rawdata.height() as usize)?;
             let tile_size = rawdata.tile_size();
             let dec_tiles: Vec<Option<Tile>> = tiles
                 .par_iter()
diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 7458ed1..0b72eef 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -468,20 +468,19 @@ impl RawFileImpl for RafFile {
                     } else {
                         let mut view = raw_container.borrow_view_mut();
                         let unpacked = if bps == 14 {
-                            let mut unpacked = Vec::with_capacity(
-                                raw_size.width as usize * raw_size.height as usize,
-                            );
+                            let len = utils::image_len(
+                                raw_size.width as usize,
+                                raw_size.height as usize,
+                            )?;
+                            let mut unpacked = Vec::with_capacity(len);
                             let view = crate::io::Viewer::create_subview(&view, cfa_offset)?;
                             let mut reader = BitReaderLe32::new(view);
-                            unpack::unpack_14to16(
-                                &mut reader,
-                                raw_size.width as usize * raw_size.height as usize,
-                                &mut unpacked,
-                            )
-                            .map_err(|err| {
-                                log::error!("RAF failed to unpack 14 bits {err}");
-                                err
-                            })?;
+                            unpack::unpack_14to16(&mut reader, len, &mut unpacked).map_err(
+                                |err| {
+                                    log::error!("RAF failed to unpack 14 bits {err}");
+                                    err
+                                },
+                            )?;
                             unpacked
                         } else {
                             view.seek(SeekFrom::Start(cfa_offset))?;
diff --git a/src/fujifilm/decompress.rs b/src/fujifilm/decompress.rs
index 7c9da23..bc0a869 100644
--- a/src/fujifilm/decompress.rs
+++ b/src/fujifilm/decompress.rs
@@ -36,6 +36,7 @@ use rayon::prelude::*;
 use crate::bitmap::ImageBuffer;
 use crate::decompress::bit_reader::{BitReader, BitReaderBe32};
 use crate::mosaic::{Pattern, PatternColour};
+use crate::utils;
 use crate::{Error, Result};
 
 /// Calculate the required bits to encode as many states.
@@ -360,6 +361,8 @@ pub(super) fn decompress_fuji(
         return Err(Error::Decompression("Fuji dimensions don't match".into()));
     }
 
+    utils::image_len(width, height)?;
+
     let params = Params::new(&header)?;
     log::debug!("Params: {:?}", params);
 
diff --git a/src/minolta.rs b/src/minolta.rs
index 006b9c8..29983ce 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -41,6 +41,7 @@ use crate::mosaic::Pattern;
 use crate::rawfile::{RawFileHandleType, ThumbnailStorage};
 use crate::thumbnail;
 use crate::tiff::{self, exif, Ifd, IfdType};
+use crate::utils;
 use crate::{
     Context, DataType, Dump, Error, RawFile, RawFileHandle, RawFileImpl, RawImage, Result, Type,
     TypeId,
@@ -270,7 +271,8 @@ impl RawFileImpl for MrwFile {
                         rawinfo.mosaic,
                     )
                 } else {
-                    let mut unpacked = Vec::with_capacity((rawinfo.x * rawinfo.y) as usize);
+                    let len = utils::image_len(rawinfo.x as usize, rawinfo.y as usize)?;
+                    let mut unpacked = Vec::with_capacity(len);
                     decompress::unpack_be12to16(&raw, &mut unpacked, tiff::Compression::None)
                         .map_err(|err| {
                             log::error!("RAF failed to unpack {}", err);
diff --git a/src/nikon.rs b/src/nikon.rs
index af62de4..3c3df2c 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -257,7 +257,7 @@ impl NefFile {
 
         let data = rawdata.data8().ok_or(Error::NotFound)?;
 
-        let out_size = width as usize * height as usize;
+        let out_size = utils::image_len(width as usize, height as usize)?;
         let mut out_data = Vec::with_capacity(out_size);
         let mut fetched = 0_usize;
         let mut written = 0_usize;
@@ -435,7 +435,7 @@ impl NefFile {
                 let mut iter = CfaIterator::new(diffs, raw_columns, curve.vpred);
 
                 // Using uninit_vec! here is slower.
-                let mut new_data = vec![0; rows * columns];
+                let mut new_data = vec![0; utils::image_len(rows, columns)?];
                 for i in 0..rows {
                     for j in 0..raw_columns {
                         let t = iter.get().map_err(|err| {
diff --git a/src/olympus.rs b/src/olympus.rs
index d3cb2d0..bafb65a 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -286,6 +286,7 @@ impl OrfFile {
             .data8()
             .or_else(|| data.data16_as_u8())
             .and_then(|data8| {
+                utils::image_len(width as usize, height as usize).ok()?;
                 if data8.len() == (height * ((width * 12 / 8) + ((width + 2) / 10))) as usize {
                     probe!(self.probe, "orf.decompress.unpack", "true");
                     let mut buf = data8;
diff --git a/src/olympus/decompress.rs b/src/olympus/decompress.rs
index 37f519d..f642260 100644
--- a/src/olympus/decompress.rs
+++ b/src/olympus/decompress.rs
@@ -25,6 +25,7 @@
 
 use bitreader::BitReader;
 
+use crate::utils;
 use crate::{Error, Result};
 
 #[doc(hidden)]
@@ -35,7 +36,7 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
             "ORF: Compressed data too small.".into(),
         ));
     }
-    let mut output: Vec<u16> = vec![0; h * w];
+    let mut output: Vec<u16> = vec![0; utils::image_len(w, h)?];
     let data = output.as_mut_slice();
 
     // XXX can we avoid the initialization to 0.
diff --git a/src/pentax/decompress.rs b/src/pentax/decompress.rs
index 8c316dd..a38a394 100644
--- a/src/pentax/decompress.rs
+++ b/src/pentax/decompress.rs
@@ -30,6 +30,7 @@
 use std::io::BufRead;
 
 use crate::container::Endian;
+use crate::utils;
 use crate::Result;
 
 const DECODE_CACHE_BITS: u32 = 13;
@@ -40,7 +41,7 @@ pub(super) fn decompress(
     width: usize,
     height: usize,
 ) -> Result<Vec<u16>> {
-    let mut out = vec![0_u16; width * height];
+    let mut out = vec![0_u16; utils::image_len(width, height)?];
     let mut htable = HuffTable::default();
 
     /* Attempt to read huffman table, if found in MakerNote */
diff --git a/src/render/demosaic.rs b/src/render/demosaic.rs
index 9ffd26e..33ab7b1 100644
--- a/src/render/demosaic.rs
+++ b/src/render/demosaic.rs
@@ -25,7 +25,7 @@ use crate::bitmap::ImageBuffer;
 
 use crate::{
     mosaic::{Pattern, PatternType},
-    Error,
+    utils, Error,
 };
 
 /// Calculate the median of 4 float.
@@ -76,7 +76,8 @@ pub(crate) fn bimedian(
         }
     };
 
-    let mut dst: Vec<f64> = vec![0.0; input.width as usize * input.height as usize * 3];
+    let len = utils::image_len(input.width as usize, input.height as usize)?;
+    let mut dst: Vec<f64> = vec![0.0; len * 3];
 
     #[allow(non_snake_case)]
     // Offset to get the same column on next row (or previous if negative)
@@ -165,7 +166,7 @@ pub(crate) fn bimedian(
     // This is necessary to have a consistent size with the output.
     // Notably, the `image` crate doesn't like it.
     // The assumption is that the resize should shrink the buffer.
-    dst.resize((3 * out_w * out_h) as usize, 0.0);
+    dst.truncate((3 * out_w * out_h) as usize);
 
     Ok(ImageBuffer::with_data(dst, out_w, out_h, input.bpc, 3))
 }
diff --git a/src/utils.rs b/src/utils.rs
index 88e0913..d0c412c 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -21,6 +21,8 @@
 
 //! Various utilities
 
+use crate::{Error, Result};
+
 #[macro_export]
 /// Create a vector with size but not initialized.
 /// Use with caution.
@@ -35,6 +37,21 @@ macro_rules! uninit_vec {
     }};
 }
 
+/// The most values an image can have.
+const MAX_IMAGE_LEN: usize = 1 << 29;
+
+/// The number of values for an image of `width` by `height`. The
+/// dimensions come from the file. An error if it is unreasonable.
+pub(crate) fn image_len(width: usize, height: usize) -> Result<usize> {
+    match width.checked_mul(height) {
+        Some(len) if len <= MAX_IMAGE_LEN => Ok(len),
+        _ => {
+            log::error!("Image is too large: {width} x {height}");
+            Err(Error::FormatError)
+        }
+    }
+}
+
 /// Convert a slice of u32 to a quad of u16
 /// If there is less than 4 in the slice, it will use the first
 /// value for the quad.
-- 
2.43.0


From 5a3ba9acd71ab86c7f0e8e719ea65f5edecb060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:51 +0000
Subject: [PATCH 46/69] fix: tiff: don't allocate more values than there is
 data

The count of an entry is from the file and might not match the data the
entry has.
---
 src/tiff/entry.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/tiff/entry.rs b/src/tiff/entry.rs
index a8867ca..b93e76a 100644
--- a/src/tiff/entry.rs
+++ b/src/tiff/entry.rs
@@ -328,6 +328,10 @@ impl Entry {
 
         let data_slice = self.data.as_slice();
         let count = self.count as usize;
+        if count > data_slice.len() / unit_size {
+            log::error!("TIFFEntry: not enough data for {count} values");
+            return None;
+        }
         let mut values = Vec::with_capacity(count);
         for index in 0..count {
             let slice = &data_slice[unit_size * index..];
@@ -383,6 +387,10 @@ impl Entry {
 
         let data_slice = self.data.as_slice();
         let count = self.count as usize;
+        if count > data_slice.len() / unit_size {
+            log::error!("TIFFEntry: not enough data for {count} values");
+            return None;
+        }
         let mut values = Vec::with_capacity(count);
         for index in 0..count {
             let slice = &data_slice[unit_size * index..];
@@ -423,6 +431,10 @@ impl Entry {
 
         let data_slice = self.data.as_slice();
         let count = self.count as usize;
+        if count > data_slice.len() / unit_size {
+            log::error!("TIFFEntry: not enough data for {count} values");
+            return None;
+        }
         let mut values = Vec::with_capacity(count);
         for index in 0..count {
             let slice = &data_slice[unit_size * index..];
@@ -461,6 +473,10 @@ impl Entry {
         if !T::is_array()
             && ((self.type_ == T::exif_type() as i16) || (self.type_ == TagType::Undefined as i16))
         {
+            if count > data_slice.len() / T::unit_size() {
+                log::error!("TIFFEntry: not enough data for {count} values");
+                return None;
+            }
             let mut values = Vec::with_capacity(count);
             for index in 0..count {
                 let slice = &data_slice[T::unit_size() * index..];
-- 
2.43.0


From 6d98e8cbeee0806ef424b0b6b925b329730c7607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:54 +0000
Subject: [PATCH 47/69] fix: cr2: error for invalid slices

The number of slices is from the file and can't be any value.
---
 src/canon/cr2.rs        |  2 +-
 src/decompress/ljpeg.rs | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index 47955d9..cb74eb1 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -107,7 +107,7 @@ impl Cr2File {
             // or is 3.
             if slices.len() > 1 {
                 probe!(self.probe, "cr2.slices", "true");
-                decompressor.set_slices(slices);
+                decompressor.set_slices(slices)?;
             }
 
             decompressor
diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index a42bcec..34c7e2e 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -154,13 +154,21 @@ impl LJpeg {
     }
 
     /// Set the slices for Canon CR2.
-    pub fn set_slices(&mut self, slices: &[u32]) {
+    pub fn set_slices(&mut self, slices: &[u32]) -> Result<()> {
         let mut v = Vec::new();
+        // These are 16-bits values in the file.
+        if slices.len() < 3 || slices[0] > u16::MAX as u32 {
+            return Err(Error::JpegFormat(format!(
+                "LJPEG: invalid slices {slices:?}"
+            )));
+        }
         let n = slices[0] as usize;
         v.resize(n + 1, slices[1]);
         v[n] = slices[2];
 
         self.slices = Some(v);
+
+        Ok(())
     }
 
     /// Decompress the LJPEG stream into a tile.
-- 
2.43.0


From 1ff1ba4281d1190b259b33a74f6991bf36d44e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:55 +0000
Subject: [PATCH 48/69] fix: check the length of the Canon colour data before
 picking values out of it

---
 src/canon/colour.rs | 90 +++++++++++++++++----------------------------
 src/canon/cr2.rs    |  1 +
 2 files changed, 34 insertions(+), 57 deletions(-)

diff --git a/src/canon/colour.rs b/src/canon/colour.rs
index 6b76032..54de2ca 100644
--- a/src/canon/colour.rs
+++ b/src/canon/colour.rs
@@ -50,10 +50,11 @@ impl ColourFormat {
     /// used.
     pub(crate) fn identify(colour_data: &[u16]) -> Option<Self> {
         use ColourFormat::*;
+        let version = *colour_data.first()? as i16;
         log::debug!(
             "Probing ColourData. (len={} version={})",
             colour_data.len(),
-            colour_data[0] as i16
+            version
         );
 
         match colour_data.len() {
@@ -74,7 +75,7 @@ impl ColourFormat {
             _ => {
                 // The first u16 is a version field (i16), except for
                 // ColourData1 and ColourData2.
-                match colour_data[0] as i16 {
+                match version {
                     // 1DmkIIN, 5D, 30D, 400D
                     1 => Some(ColourData3),
                     // 1DmkIII, 1DSmkIII, 1DmkIV, 5DmkII, 7D,
@@ -104,7 +105,7 @@ impl ColourFormat {
                         log::error!(
                             "Unknown ColourData. (len={} version={})",
                             colour_data.len(),
-                            colour_data[0] as i16
+                            version
                         );
                         None
                     }
@@ -117,48 +118,48 @@ impl ColourFormat {
     pub(crate) fn blacks(&self, colour_data: &[u16]) -> Option<[u16; 4]> {
         use ColourFormat::*;
 
-        let version = colour_data[0];
+        let version = *colour_data.first()?;
         match *self {
             ColourData1 | ColourData2 => None,
-            ColourData3 => colour_data[196..200].try_into().ok(),
+            ColourData3 => colour_data.get(196..200)?.try_into().ok(),
             ColourData4 => match version {
                 2 | 3 => None,
-                4 | 5 => colour_data[692..696].try_into().ok(),
-                6 | 7 => colour_data[715..719].try_into().ok(),
-                9 => colour_data[719..723].try_into().ok(),
+                4 | 5 => colour_data.get(692..696)?.try_into().ok(),
+                6 | 7 => colour_data.get(715..719)?.try_into().ok(),
+                9 => colour_data.get(719..723)?.try_into().ok(),
                 _ => {
-                    log::error!("Invalid version {} for {:?}", colour_data[0], self);
+                    log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
             ColourData5 => match version as i16 {
-                -4 => colour_data[333..337].try_into().ok(),
-                -3 => colour_data[264..268].try_into().ok(),
+                -4 => colour_data.get(333..337)?.try_into().ok(),
+                -3 => colour_data.get(264..268)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
-            ColourData6 => colour_data[479..483].try_into().ok(),
+            ColourData6 => colour_data.get(479..483)?.try_into().ok(),
             ColourData7 => match version {
-                10 => colour_data[504..508].try_into().ok(),
-                11 => colour_data[728..732].try_into().ok(),
+                10 => colour_data.get(504..508)?.try_into().ok(),
+                11 => colour_data.get(728..732)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
             ColourData8 => match version {
-                14 => colour_data[556..560].try_into().ok(),
-                12 | 13 | 15 => colour_data[778..782].try_into().ok(),
+                14 => colour_data.get(556..560)?.try_into().ok(),
+                12 | 13 | 15 => colour_data.get(778..782)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
-            ColourData9 => colour_data[329..333].try_into().ok(),
-            ColourData10 => colour_data[343..347].try_into().ok(),
-            ColourData11 => colour_data[363..367].try_into().ok(),
+            ColourData9 => colour_data.get(329..333)?.try_into().ok(),
+            ColourData10 => colour_data.get(343..347)?.try_into().ok(),
+            ColourData11 => colour_data.get(363..367)?.try_into().ok(),
         }
     }
 
@@ -167,43 +168,18 @@ impl ColourFormat {
     pub(crate) fn as_shot(&self, colour_data: &[u16]) -> Option<[f64; 3]> {
         use ColourFormat::*;
 
-        match *self {
-            ColourData1 => {
-                let r = colour_data[25] as f64;
-                let g = colour_data[25 + 1] as f64;
-                let b = colour_data[25 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData2 => {
-                let r = colour_data[24] as f64;
-                let g = colour_data[24 + 1] as f64;
-                let b = colour_data[24 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData3 | ColourData4 | ColourData6 | ColourData7 | ColourData8 => {
-                let r = colour_data[63] as f64;
-                let g = colour_data[63 + 1] as f64;
-                let b = colour_data[63 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData5 | ColourData9 => {
-                let r = colour_data[71] as f64;
-                let g = colour_data[71 + 1] as f64;
-                let b = colour_data[71 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData10 => {
-                let r = colour_data[85] as f64;
-                let g = colour_data[85 + 1] as f64;
-                let b = colour_data[85 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData11 => {
-                let r = colour_data[105] as f64;
-                let g = colour_data[105 + 1] as f64;
-                let b = colour_data[105 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-        }
+        let offset = match *self {
+            ColourData1 => 25,
+            ColourData2 => 24,
+            ColourData3 | ColourData4 | ColourData6 | ColourData7 | ColourData8 => 63,
+            ColourData5 | ColourData9 => 71,
+            ColourData10 => 85,
+            ColourData11 => 105,
+        };
+        let wb = colour_data.get(offset..offset + 4)?;
+        let r = wb[0] as f64;
+        let g = wb[1] as f64;
+        let b = wb[3] as f64;
+        Some([g / r, 1.0, g / b])
     }
 }
diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index cb74eb1..dc8640d 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -149,6 +149,7 @@ impl Cr2File {
     fn old_white_balance(&self) -> Option<[f64; 3]> {
         self.maker_note_ifd()
             .and_then(|mnote| mnote.uint_value_array(exif::MNOTE_CANON_WHITE_BALANCE_TABLE))
+            .filter(|v| v.len() >= 3)
             .map(|v| {
                 probe!(self.probe, "cr2.old_wb", "true");
                 let g = v[1] as f64;
-- 
2.43.0


From a2d42cc9bec158a8c17159e06af48800bb8976e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:56 +0000
Subject: [PATCH 49/69] fix: check the length of CIFF records before picking
 values out of them

---
 src/canon/crw.rs                |  2 +-
 src/canon/crw/ciff/container.rs | 34 +++++++++++++++++++++++++--------
 2 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index 62685c9..d0e73e7 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -246,7 +246,7 @@ impl RawFileImpl for CrwFile {
                             .and_then(|r| r.data(container))
                             .and_then(|data| {
                                 if let ciff::RecordData::DWord(id) = data {
-                                    return canon::CANON_MODEL_ID_MAP.get(&id[0]).copied();
+                                    return canon::CANON_MODEL_ID_MAP.get(id.first()?).copied();
                                 }
                                 None
                             })
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 7dec3e5..b9cd468 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -65,7 +65,10 @@ lazy_static::lazy_static! {
 
 fn translate_string(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry> {
     if let Some(RecordData::Ascii(ref string)) = record.data(container) {
-        vec![Entry::from_string(tag, &string[0])]
+        string
+            .first()
+            .map(|string| vec![Entry::from_string(tag, string)])
+            .unwrap_or_default()
     } else {
         vec![]
     }
@@ -73,7 +76,10 @@ fn translate_string(record: &RecordEntry, container: &Container, tag: u16) -> Ve
 
 fn translate_serial(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry> {
     if let Some(RecordData::DWord(ref serial)) = record.data(container) {
-        vec![Entry::from_string(tag, &format!("{:X}", serial[0]))]
+        serial
+            .first()
+            .map(|serial| vec![Entry::from_string(tag, &format!("{serial:X}"))])
+            .unwrap_or_default()
     } else {
         vec![]
     }
@@ -82,6 +88,10 @@ fn translate_serial(record: &RecordEntry, container: &Container, tag: u16) -> Ve
 fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) -> Vec<Entry> {
     let mut entries = vec![];
     if let Some(camera_settings) = container.camera_settings() {
+        if camera_settings.len() <= 20 {
+            log::error!("CIFF: camera settings are too short");
+            return entries;
+        }
         // Macro mode
         let value = camera_settings[1];
         if value == 1 {
@@ -147,11 +157,16 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
 
 fn translate_focal_length(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry> {
     if let Some(RecordData::Word(ref value)) = record.data(container) {
-        let fl = value[1] as u32;
-        let mut fu = 0;
-        if let Some(camera_settings) = container.camera_settings() {
-            fu = camera_settings[25] as u32
-        }
+        let fl = if let Some(fl) = value.get(1) {
+            *fl as u32
+        } else {
+            return vec![];
+        };
+        let fu = container
+            .camera_settings()
+            .and_then(|camera_settings| camera_settings.get(25))
+            .map(|fu| *fu as u32)
+            .unwrap_or(0);
         let mut buf = vec![0_u8; 8];
         container.endian_write_u32(&mut buf, fl);
         container.endian_write_u32(&mut buf[4..], fu);
@@ -164,7 +179,10 @@ fn translate_focal_length(record: &RecordEntry, container: &Container, tag: u16)
 
 fn translate_date(record: &RecordEntry, container: &Container, _: u16) -> Vec<Entry> {
     if let Some(RecordData::DWord(ref value)) = record.data(container) {
-        if let Some(date_time) = chrono::Utc.timestamp_opt(value[0] as i64, 0).single() {
+        if let Some(date_time) = value
+            .first()
+            .and_then(|value| chrono::Utc.timestamp_opt(*value as i64, 0).single())
+        {
             let date = format!("{}", date_time.format("%Y:%m:%d %H:%M:%S"));
 
             let original = Entry::from_string(exif::EXIF_TAG_DATE_TIME_ORIGINAL, &date);
-- 
2.43.0


From 3fa54498fa107a9fbc5190b393a49641c8017480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:57 +0000
Subject: [PATCH 50/69] fix: an empty array of levels has no quad

---
 src/dng.rs      | 14 ++++++++++----
 src/epson.rs    |  7 ++++---
 src/fujifilm.rs |  4 +++-
 src/nikon.rs    |  3 ++-
 src/olympus.rs  |  4 +++-
 src/pentax.rs   |  7 +++++--
 src/sony.rs     | 14 ++++++++++----
 src/utils.rs    |  8 ++++----
 8 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/src/dng.rs b/src/dng.rs
index 7bb77b2..84d7569 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -391,11 +391,17 @@ impl RawFileImpl for DngFile {
                             Some(Rect::new(origin, size))
                         });
                         rawdata.set_user_crop(user_crop, None);
-                        if let Some(blacks) = dir.uint_value_array(exif::DNG_TAG_BLACK_LEVEL) {
-                            rawdata.set_blacks(utils::to_quad(&blacks));
+                        if let Some(blacks) = dir
+                            .uint_value_array(exif::DNG_TAG_BLACK_LEVEL)
+                            .and_then(|blacks| utils::to_quad(&blacks))
+                        {
+                            rawdata.set_blacks(blacks);
                         }
-                        if let Some(whites) = dir.uint_value_array(exif::DNG_TAG_WHITE_LEVEL) {
-                            rawdata.set_whites(utils::to_quad(&whites));
+                        if let Some(whites) = dir
+                            .uint_value_array(exif::DNG_TAG_WHITE_LEVEL)
+                            .and_then(|whites| utils::to_quad(&whites))
+                        {
+                            rawdata.set_whites(whites);
                         }
                         if let Some(as_shot_wb) = self
                             .main_ifd()
diff --git a/src/epson.rs b/src/epson.rs
index 7282525..c99837a 100644
--- a/src/epson.rs
+++ b/src/epson.rs
@@ -199,10 +199,11 @@ impl RawFileImpl for ErfFile {
                                         None
                                     }
                                 });
-                            if let Some(blacks) =
-                                mnote.uint_value_array(exif::MNOTE_EPSON_BLACK_LEVEL)
+                            if let Some(blacks) = mnote
+                                .uint_value_array(exif::MNOTE_EPSON_BLACK_LEVEL)
+                                .and_then(|blacks| utils::to_quad(&blacks))
                             {
-                                rawdata.set_blacks(utils::to_quad(&blacks));
+                                rawdata.set_blacks(blacks);
                             }
                             if let Some(wb_values) = mnote.u16_value_array(exif::MNOTE_EPSON_WB) {
                                 if wb_values.len() != 128 {
diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 0b72eef..d5d3358 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -558,7 +558,9 @@ impl RawFileImpl for RafFile {
                         }
                     }
                 };
-                rawdata.set_blacks(utils::to_quad(&blacks));
+                if let Some(blacks) = utils::to_quad(&blacks) {
+                    rawdata.set_blacks(blacks);
+                }
                 rawdata.set_whites([((1 << bps as u32) - 1) as u16; 4]);
                 rawdata.set_active_area(active_area);
                 rawdata.set_user_crop(crop, aspect_ratio);
diff --git a/src/nikon.rs b/src/nikon.rs
index 3c3df2c..f418ccb 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -670,9 +670,10 @@ impl RawFileImpl for NefFile {
                         if let Some(blacks) = self
                             .ifd(tiff::IfdType::MakerNote)
                             .and_then(|dir| dir.uint_value_array(exif::MNOTE_NIKON_BLACK_LEVEL))
+                            .and_then(|blacks| utils::to_quad(&blacks))
                         {
                             probe!(self.probe, "nef.blacks.mnote", true);
-                            rawdata.set_blacks(utils::to_quad(&blacks));
+                            rawdata.set_blacks(blacks);
                         }
                         if let Some(wb) = self.white_balance() {
                             rawdata.set_as_shot_neutral(&wb);
diff --git a/src/olympus.rs b/src/olympus.rs
index bafb65a..8fd8e37 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -558,7 +558,9 @@ impl RawFileImpl for OrfFile {
                             if blacks.len() == 1 {
                                 data.set_blacks([blacks[0] as u16; 4]);
                             } else if blacks.len() == 4 {
-                                data.set_blacks(utils::to_quad(&blacks));
+                                if let Some(blacks) = utils::to_quad(&blacks) {
+                                    data.set_blacks(blacks);
+                                }
                             }
                         }
                         let active_area = Some(Rect::default()).and_then(|_| {
diff --git a/src/pentax.rs b/src/pentax.rs
index 3287c11..1e9b127 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -500,9 +500,12 @@ impl RawFileImpl for PefFile {
                         width: rawdata.width(),
                         height: rawdata.height(),
                     }));
-                    if let Some(blacks) = mnote.uint_value_array(exif::MNOTE_PENTAX_BLACK_POINT) {
+                    if let Some(blacks) = mnote
+                        .uint_value_array(exif::MNOTE_PENTAX_BLACK_POINT)
+                        .and_then(|blacks| utils::to_quad(&blacks))
+                    {
                         probe!(self.probe, "pef.blacks", "true");
-                        rawdata.set_blacks(utils::to_quad(&blacks));
+                        rawdata.set_blacks(blacks);
                     }
                     if let Some(white) = mnote.uint_value(exif::MNOTE_PENTAX_WHITELEVEL) {
                         probe!(self.probe, "pef.whites", "true");
diff --git a/src/sony.rs b/src/sony.rs
index 0d8e9ca..a5cdc67 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -1042,13 +1042,19 @@ impl ArwFile {
                     .find(|m| m.camera == type_id)
                     .map(|m| (m.black, m.white));
 
-                if let Some(blacks) = dir.uint_value_array(exif::ARW_TAG_BLACK_LEVELS) {
-                    rawimage.set_blacks(utils::to_quad(&blacks));
+                if let Some(blacks) = dir
+                    .uint_value_array(exif::ARW_TAG_BLACK_LEVELS)
+                    .and_then(|blacks| utils::to_quad(&blacks))
+                {
+                    rawimage.set_blacks(blacks);
                 } else if let Some((black, _)) = levels {
                     rawimage.set_blacks([black; 4]);
                 }
-                if let Some(whites) = dir.uint_value_array(exif::DNG_TAG_WHITE_LEVEL) {
-                    rawimage.set_whites(utils::to_quad(&whites));
+                if let Some(whites) = dir
+                    .uint_value_array(exif::DNG_TAG_WHITE_LEVEL)
+                    .and_then(|whites| utils::to_quad(&whites))
+                {
+                    rawimage.set_whites(whites);
                 } else if let Some((_, white)) = levels {
                     rawimage.set_whites([white; 4]);
                 }
diff --git a/src/utils.rs b/src/utils.rs
index d0c412c..63214b2 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -54,16 +54,16 @@ pub(crate) fn image_len(width: usize, height: usize) -> Result<usize> {
 
 /// Convert a slice of u32 to a quad of u16
 /// If there is less than 4 in the slice, it will use the first
-/// value for the quad.
-pub(crate) fn to_quad(slice: &[u32]) -> [u16; 4] {
+/// value for the quad. If it is empty there is no quad.
+pub(crate) fn to_quad(slice: &[u32]) -> Option<[u16; 4]> {
     if slice.len() != 4 {
-        [slice[0] as u16; 4]
+        slice.first().map(|v| [*v as u16; 4])
     } else {
         let mut sl = [0_u16; 4];
         for (idx, v) in slice[0..4].iter().enumerate() {
             sl[idx] = *v as u16;
         }
-        sl
+        Some(sl)
     }
 }
 
-- 
2.43.0


From 6fc73766ade228024d0f63dc66b0bc512a0d0104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:57 +0000
Subject: [PATCH 51/69] fix: ignore a DNG AsShotWhiteXY with less than two
 values

---
 src/dng.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dng.rs b/src/dng.rs
index 84d7569..dda5db2 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -411,6 +411,7 @@ impl RawFileImpl for DngFile {
                         } else if let Some(as_shot_xy) = self
                             .main_ifd()
                             .and_then(|dir| dir.float_value_array(exif::DNG_TAG_AS_SHOT_WHITE_XY))
+                            .filter(|v| v.len() >= 2)
                         {
                             rawdata.set_as_shot_white_xy((as_shot_xy[0], as_shot_xy[1]));
                         }
-- 
2.43.0


From 0b1d2d3002296a57e6d0dbbe57d829065b3d34e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:58 +0000
Subject: [PATCH 52/69] fix: check the length of the Epson preview and white
 balance

---
 src/epson.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/epson.rs b/src/epson.rs
index c99837a..f0cedde 100644
--- a/src/epson.rs
+++ b/src/epson.rs
@@ -139,7 +139,9 @@ impl RawFileImpl for ErfFile {
                 mnote.entry(exif::ERF_TAG_PREVIEW_IMAGE).map(|e| {
                     let mut data = Vec::from(e.data());
                     // The data start by 0xee instead of 0xff for a JPEG. Not sure why.
-                    data[0] = 0xff;
+                    if let Some(first) = data.first_mut() {
+                        *first = 0xff;
+                    }
                     let desc = thumbnail::ThumbDesc {
                         // It is 640x424 (3:2 aspect ratio)
                         width: 640,
@@ -209,12 +211,14 @@ impl RawFileImpl for ErfFile {
                                 if wb_values.len() != 128 {
                                     log::error!("EPSON white balance len {}", wb_values.len());
                                 }
-                                // These values are taken directly from dcraw.
-                                rawdata.set_as_shot_neutral(&[
-                                    (0x10000 as f64) / ((wb_values[24] as f64) * 508.0 * 1.078),
-                                    1.0,
-                                    (0x10000 as f64) / ((wb_values[25] as f64) * 382.0 * 1.173),
-                                ]);
+                                if wb_values.len() > 25 {
+                                    // These values are taken directly from dcraw.
+                                    rawdata.set_as_shot_neutral(&[
+                                        (0x10000 as f64) / ((wb_values[24] as f64) * 508.0 * 1.078),
+                                        1.0,
+                                        (0x10000 as f64) / ((wb_values[25] as f64) * 382.0 * 1.173),
+                                    ]);
+                                }
                             }
                             None::<()>
                         });
-- 
2.43.0


From 3a2941d27d085a1b89c94c5cb787a377d9281195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:58 +0000
Subject: [PATCH 53/69] fix: check the length of the Fujifilm RAF tags before
 picking values out of them

---
 src/fujifilm.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index d5d3358..6abf0a7 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -366,9 +366,9 @@ impl RawFileImpl for RafFile {
                     raf::Value::Bytes(wb) => {
                         // XXX Unsure of the format here.
                         probe!(self.probe, "raf.wb.old", true);
-                        let g = u16::from_be_bytes(wb[0..2].try_into().ok()?) as f64;
-                        let r = u16::from_be_bytes(wb[2..4].try_into().ok()?) as f64;
-                        let b = u16::from_be_bytes(wb[6..8].try_into().ok()?) as f64;
+                        let g = u16::from_be_bytes(wb.get(0..2)?.try_into().ok()?) as f64;
+                        let r = u16::from_be_bytes(wb.get(2..4)?.try_into().ok()?) as f64;
+                        let b = u16::from_be_bytes(wb.get(6..8)?.try_into().ok()?) as f64;
                         Some([g / r, 1.0, g / b, f64::NAN])
                     }
                     _ => None,
@@ -432,11 +432,14 @@ impl RawFileImpl for RafFile {
                             .uint_value_array(raf::FUJI_TAG_RAW_BLACK_LEVEL_GRB)
                             .unwrap_or_else(|| vec![0_u32; 4]);
                         if wb.is_none() {
-                            let wb_grb = dir.uint_value_array(raf::FUJI_TAG_RAW_WB_GRB).map(|v| {
-                                probe!(self.probe, "raf.wb.grb", true);
-                                let g = v[0] as f64;
-                                [g / v[1] as f64, 1.0, g / v[2] as f64, f64::NAN]
-                            });
+                            let wb_grb = dir
+                                .uint_value_array(raf::FUJI_TAG_RAW_WB_GRB)
+                                .filter(|v| v.len() >= 3)
+                                .map(|v| {
+                                    probe!(self.probe, "raf.wb.grb", true);
+                                    let g = v[0] as f64;
+                                    [g / v[1] as f64, 1.0, g / v[2] as f64, f64::NAN]
+                                });
                             wb = wb_grb;
                         }
                     }
@@ -543,7 +546,7 @@ impl RawFileImpl for RafFile {
                         // But it is assumed that as long as a value is
                         // bigger than width then it's not right.
                         let mut idx = 0_usize;
-                        while v[idx] >= raw_size.width && idx < v.len() {
+                        while idx < v.len() && v[idx] >= raw_size.width {
                             idx += 1;
                         }
                         // We definitely want the index in probe in case
-- 
2.43.0


From 6b0c8e54c6c94ed52ec2c84ffa2b923381bd9bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:59 +0000
Subject: [PATCH 54/69] fix: an empty metadata value has no number

---
 src/metadata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index cdd818e..e437b66 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -118,14 +118,14 @@ impl Value {
 
     pub fn integer(&self) -> Option<u32> {
         match self {
-            Self::Int(i) => Some(i[0]),
+            Self::Int(i) => i.first().copied(),
             _ => None,
         }
     }
 
     pub fn rational(&self) -> Option<exif::Rational> {
         match self {
-            Self::Rational(r) => Some(r[0]),
+            Self::Rational(r) => r.first().copied(),
             _ => None,
         }
     }
-- 
2.43.0


From 56cc955639ee535d5981d7ed9fc03093f731ebb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:00 +0000
Subject: [PATCH 55/69] fix: do not patch the first byte of an empty Minolta
 preview

---
 src/minolta.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index 29983ce..0b627a6 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -216,7 +216,9 @@ impl RawFileImpl for MrwFile {
                 if let Some(mut buffer) = buffer {
                     // For some reason the first byte isn't 0xff. Thanks Minolta.
                     // Setting the first byte to `0xff` makes it be a JPEG.
-                    buffer[0] = 0xff;
+                    if let Some(first) = buffer.first_mut() {
+                        *first = 0xff;
+                    }
                     thumbnails.push((
                         640,
                         thumbnail::ThumbDesc {
-- 
2.43.0


From 31d64f25754cef1d54f5ca7fb1c20fe1db33d869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:01 +0000
Subject: [PATCH 56/69] fix: check the length of the Nikon colour balance and
 crop area

---
 src/nikon.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index f418ccb..cfbdd8c 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -469,7 +469,7 @@ impl NefFile {
     fn encrypted_white_balance(&self, mnote: &Dir, entry: &tiff::Entry) -> Option<[f64; 3]> {
         probe!(self.probe, "nef.wb.encrypted", "true");
         let data = entry.data();
-        let version = &data[0..4];
+        let version = data.get(0..4)?;
         let endian = mnote.endian();
         probe!(
             self.probe,
@@ -500,7 +500,7 @@ impl NefFile {
             let r = BigEndian::read_u16(data) as f64;
             let b = BigEndian::read_u16(&data[2..]) as f64;
             Some([256.0 / r, 1.0, 256.0 / b])
-        } else if &data[0..4] == b"NRW " {
+        } else if data.len() >= 8 && &data[0..4] == b"NRW " {
             probe!(self.probe, "nef.wb.nrw", "true");
             let offset = if &data[4..8] != b"0100" && entry.count > 72 {
                 56
@@ -511,7 +511,7 @@ impl NefFile {
                 return None;
             };
             probe!(self.probe, "nef.wb.nrw.offset", offset);
-            let data = &data[offset..];
+            let data = data.get(offset..offset + 16)?;
             let r = (LittleEndian::read_u32(data) << 2) as f64;
             let g =
                 (LittleEndian::read_u32(&data[4..]) + LittleEndian::read_u32(&data[8..])) as f64;
@@ -682,6 +682,7 @@ impl RawFileImpl for NefFile {
                         let user_crop = self
                             .maker_note_ifd()
                             .and_then(|dir| dir.uint_value_array(exif::MNOTE_NIKON_CROP_AREA))
+                            .filter(|user_crop| user_crop.len() >= 4)
                             .map(|user_crop| Rect {
                                 x: user_crop[0],
                                 y: user_crop[1],
-- 
2.43.0


From dc6ae88c67b2c9474878ef8f0e38b03ac07ae1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:01 +0000
Subject: [PATCH 57/69] fix: ignore a Pentax white balance with less than four
 values

---
 src/pentax.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pentax.rs b/src/pentax.rs
index 1e9b127..c571c71 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -525,7 +525,10 @@ impl RawFileImpl for PefFile {
                             rawdata.set_blacks([black; 4]);
                         }
                     }
-                    if let Some(wb) = mnote.uint_value_array(exif::MNOTE_PENTAX_WHITE_BALANCE) {
+                    if let Some(wb) = mnote
+                        .uint_value_array(exif::MNOTE_PENTAX_WHITE_BALANCE)
+                        .filter(|wb| wb.len() >= 4)
+                    {
                         // ExifTool and the MNOTE_PENTAX_TAG_NAMES have this as WhitePoint
                         let g = wb[1] as f64;
                         let wb = [g / wb[0] as f64, 1.0, g / wb[3] as f64];
-- 
2.43.0


From e44586313c4e674b4850478a8c46e8d293e8c991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:02 +0000
Subject: [PATCH 58/69] fix: ignore an as shot neutral with less than three
 values

---
 src/rawimage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rawimage.rs b/src/rawimage.rs
index 1dea21b..4ae0102 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -276,6 +276,10 @@ impl RawImage {
 
     /// Set the white balance.
     pub fn set_as_shot_neutral(&mut self, as_shot: &[f64]) {
+        if as_shot.len() < 3 {
+            log::error!("Not enough values for as shot neutral: {}", as_shot.len());
+            return;
+        }
         let mut as_shot_neutral = [0_f64; 4];
         as_shot_neutral[0] = as_shot[0];
         as_shot_neutral[1] = as_shot[1];
-- 
2.43.0


From 1c313fa334a1662b6ba9221a13e5eeafccae7656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:02 +0000
Subject: [PATCH 59/69] fix: check the length of the Sony camera settings and
 white balance

---
 src/sony.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/sony.rs b/src/sony.rs
index a5cdc67..bcd6f40 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -900,7 +900,7 @@ impl ArwFile {
     /// get it at the specified `offset`.
     fn aspect_ratio_2010(&self, offset: usize) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings_2010()?;
-        match camera_settings[offset] {
+        match *camera_settings.get(offset)? {
             0 => Some(AspectRatio(16, 9)),
             1 => Some(AspectRatio(4, 3)),
             2 => Some(AspectRatio(3, 2)),
@@ -916,7 +916,7 @@ impl ArwFile {
 
     fn aspect_ratio_cs(&self, offset: usize) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings(Endian::Big)?;
-        match camera_settings[offset] {
+        match *camera_settings.get(offset)? {
             1 => Some(AspectRatio(3, 2)),
             2 => Some(AspectRatio(16, 9)),
             _ => None,
@@ -925,7 +925,7 @@ impl ArwFile {
 
     fn aspect_ratio_cs3(&self) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings3()?;
-        match camera_settings[10] {
+        match *camera_settings.get(10)? {
             4 => Some(AspectRatio(3, 2)),
             8 => Some(AspectRatio(16, 9)),
             _ => None,
@@ -1029,10 +1029,14 @@ impl ArwFile {
                     });
                 let aspect_ratio = self.aspect_ratio();
                 rawimage.set_user_crop(user_crop, aspect_ratio);
-                if let Some(wb) = dir.int_value_array(exif::ARW_TAG_WB_RGGB_LEVELS).map(|v| {
-                    let g = v[1] as f64;
-                    [g / v[0] as f64, 1.0, g / v[3] as f64]
-                }) {
+                if let Some(wb) = dir
+                    .int_value_array(exif::ARW_TAG_WB_RGGB_LEVELS)
+                    .filter(|v| v.len() >= 4)
+                    .map(|v| {
+                        let g = v[1] as f64;
+                        [g / v[0] as f64, 1.0, g / v[3] as f64]
+                    })
+                {
                     rawimage.set_as_shot_neutral(&wb);
                 }
                 // XXX This here and Pentax get the levels from the builtins.
-- 
2.43.0


From 478a75a180b3653f60ac85b72f887843dc381370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:03 +0000
Subject: [PATCH 60/69] fix: check the length of the CFA pattern data instead
 of the tag count

---
 src/tiff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tiff.rs b/src/tiff.rs
index 5a8d886..66615a1 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -174,10 +174,10 @@ fn convert_cfa_pattern(dir: &Dir, entry: &Entry) -> Option<Pattern> {
 }
 
 fn convert_new_cfa_pattern(entry: &Entry) -> Option<Pattern> {
-    if entry.count < 4 {
+    let data = entry.data();
+    if entry.count < 4 || data.len() < 8 {
         return None;
     }
-    let data = entry.data();
 
     let h = data[0];
     let v = data[1];
-- 
2.43.0


From 6a47e39265b5bed743ff8bb23b0bf2c81e707320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:11 +0000
Subject: [PATCH 61/69] fix: check that the TIFF entry has the bytes of the
 value

---
 src/tiff/entry.rs | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/src/tiff/entry.rs b/src/tiff/entry.rs
index b93e76a..8c70f2c 100644
--- a/src/tiff/entry.rs
+++ b/src/tiff/entry.rs
@@ -174,6 +174,17 @@ impl Entry {
         self.value_at_index_::<T, E>(index, false)
     }
 
+    /// The data from the value at `index`, if it is all there.
+    fn bytes_at_index(&self, index: u32, unit_size: usize) -> Option<&[u8]> {
+        let start = unit_size.checked_mul(index as usize)?;
+        let bytes = self.data.as_slice().get(start..)?;
+        if bytes.len() < unit_size {
+            log::error!("TIFFEntry: not enough data for index {index}");
+            return None;
+        }
+        Some(bytes)
+    }
+
     /// Get the value at index. Ignore typing if `untyped` is true.
     fn value_at_index_<T, E>(&self, index: u32, untyped: bool) -> Option<T>
     where
@@ -188,9 +199,9 @@ impl Entry {
                 log::error!("index {} is >= {}", index, self.count);
                 return None;
             }
-            return Some(T::read::<E>(
-                &self.data.as_slice()[T::unit_size() * index as usize..],
-            ));
+            return self
+                .bytes_at_index(index, T::unit_size())
+                .map(|bytes| T::read::<E>(bytes));
         }
         log::error!(
             "Entry {:x}({}) incorrect type {} for {:?}",
@@ -215,12 +226,12 @@ impl Entry {
         exif::TagType::try_from(self.type_)
             .ok()
             .and_then(|typ| match typ {
-                TagType::Short => Some(u16::read::<E>(
-                    &self.data.as_slice()[u16::unit_size() * index as usize..],
-                ) as u32),
-                TagType::Long => Some(u32::read::<E>(
-                    &self.data.as_slice()[u32::unit_size() * index as usize..],
-                )),
+                TagType::Short => self
+                    .bytes_at_index(index, u16::unit_size())
+                    .map(|bytes| u16::read::<E>(bytes) as u32),
+                TagType::Long => self
+                    .bytes_at_index(index, u32::unit_size())
+                    .map(|bytes| u32::read::<E>(bytes)),
                 TagType::Rational => self
                     .value_at_index::<Rational, E>(index)
                     .map(|r| u32::from(&r)),
@@ -244,12 +255,12 @@ impl Entry {
         exif::TagType::try_from(self.type_)
             .ok()
             .and_then(|typ| match typ {
-                TagType::SShort => Some(i16::read::<E>(
-                    &self.data.as_slice()[i16::unit_size() * index as usize..],
-                ) as i32),
-                TagType::SLong => Some(i32::read::<E>(
-                    &self.data.as_slice()[i32::unit_size() * index as usize..],
-                )),
+                TagType::SShort => self
+                    .bytes_at_index(index, i16::unit_size())
+                    .map(|bytes| i16::read::<E>(bytes) as i32),
+                TagType::SLong => self
+                    .bytes_at_index(index, i32::unit_size())
+                    .map(|bytes| i32::read::<E>(bytes)),
                 _ => {
                     log::error!("incorrect type {} for uint {}", self.type_, self.id);
                     None
-- 
2.43.0


From 53045d3286b7adf7b46c6dd6e7dcfc732ba84da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:21 +0000
Subject: [PATCH 62/69] fix: check the length of the Sony A100 private data

---
 src/sony.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sony.rs b/src/sony.rs
index bcd6f40..9d4d297 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -824,6 +824,7 @@ impl ArwFile {
         let offset = dir
             .entry(exif::DNG_TAG_DNG_PRIVATE)
             .and_then(|entry| entry.value_array::<u8>(dir.endian()))
+            .filter(|bytes| bytes.len() >= u32::unit_size())
             .map(|bytes| u32::read::<LittleEndian>(&bytes))
             .ok_or(Error::NotFound)?;
         let view = Viewer::create_view(&self.reader, offset as u64)?;
-- 
2.43.0


From 5c5133aa5c48f509a2bd5ad0790cf75eeb29c90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:06 +0000
Subject: [PATCH 63/69] fix: copy the whole colour matrix when the caller's
 buffer is larger

or_rawfile_get_colourmatrix1/2 panicked when the buffer was bigger than
the matrix, as it copied as many values as the buffer can hold.
---
 src/capi/rawfile.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/capi/rawfile.rs b/src/capi/rawfile.rs
index cd99235..ecc3381 100644
--- a/src/capi/rawfile.rs
+++ b/src/capi/rawfile.rs
@@ -342,12 +342,13 @@ fn rawfile_get_colour_matrix(
             |err| err.into(),
             |cm| {
                 let out_size = unsafe { *size } as usize;
-                if out_size < cm.1.len() {
+                let len = cm.1.len();
+                if out_size < len {
                     return or_error::BUF_TOO_SMALL;
                 }
-                let slice = unsafe { std::slice::from_raw_parts_mut(matrix, out_size) };
-                slice.copy_from_slice(&cm.1[..out_size]);
-                unsafe { *size = cm.1.len() as u32 };
+                let slice = unsafe { std::slice::from_raw_parts_mut(matrix, len) };
+                slice.copy_from_slice(&cm.1);
+                unsafe { *size = len as u32 };
                 or_error::NONE
             },
         )
-- 
2.43.0


From 409281500cf0387c53bf8788c76b1f9d9f640021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:06 +0000
Subject: [PATCH 64/69] fix: DNG active area is top, left, bottom, right

The width and height were set to the right and bottom coordinates.
---
 src/dng.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/dng.rs b/src/dng.rs
index dda5db2..6c47854 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -357,11 +357,14 @@ impl RawFileImpl for DngFile {
                             .and_then(|e| e.uint_value_array(container.endian()))
                             // check the size of the array. Should be 4
                             .and_then(|a| if a.len() >= 4 { Some(a) } else { None })
-                            .map(|a| Rect {
-                                x: a[1],
-                                y: a[0],
-                                height: a[2],
-                                width: a[3],
+                            // top, left, bottom, right
+                            .and_then(|a| {
+                                Some(Rect {
+                                    x: a[1],
+                                    y: a[0],
+                                    height: a[2].checked_sub(a[0])?,
+                                    width: a[3].checked_sub(a[1])?,
+                                })
                             })
                             .or_else(|| {
                                 Some(Rect {
-- 
2.43.0


From ab85ef304d916de8324311c38ac15b30359ff335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:08 +0000
Subject: [PATCH 65/69] fix: write the CRW macro, metering and exposure modes
 to their own EXIF tags

The macro mode and the metering mode were written as EXIF_TAG_FLASH and the
exposure mode as EXIF_TAG_METERING_MODE: the entries have the same key so that
only the last one remained, the flash was lost and the metering mode was wrong.
---
 src/canon/crw/ciff/container.rs | 16 +++++++++++++---
 src/tiff/exif/tags.rs           |  4 ++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index b9cd468..430079d 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -97,7 +97,12 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
         if value == 1 {
             let mut buf = [0_u8; 4];
             container.endian_write_u16(&mut buf, 1);
-            let entry = Entry::new(exif::EXIF_TAG_FLASH, TagType::Short as i16, 1, buf);
+            let entry = Entry::new(
+                exif::EXIF_TAG_SUBJECT_DISTANCE_RANGE,
+                TagType::Short as i16,
+                1,
+                buf,
+            );
             entries.push(entry);
         }
 
@@ -128,7 +133,7 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
         };
         let mut buf = [0_u8; 4];
         container.endian_write_u16(&mut buf, metering);
-        let entry = Entry::new(exif::EXIF_TAG_FLASH, TagType::Short as i16, 1, buf);
+        let entry = Entry::new(exif::EXIF_TAG_METERING_MODE, TagType::Short as i16, 1, buf);
         entries.push(entry);
 
         // Exposure mode
@@ -148,7 +153,12 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
 
         let mut buf = [0_u8; 4];
         container.endian_write_u16(&mut buf, exposure);
-        let entry = Entry::new(exif::EXIF_TAG_METERING_MODE, TagType::Short as i16, 1, buf);
+        let entry = Entry::new(
+            exif::EXIF_TAG_EXPOSURE_PROGRAM,
+            TagType::Short as i16,
+            1,
+            buf,
+        );
         entries.push(entry);
     }
 
diff --git a/src/tiff/exif/tags.rs b/src/tiff/exif/tags.rs
index f8f8819..4d28f5c 100644
--- a/src/tiff/exif/tags.rs
+++ b/src/tiff/exif/tags.rs
@@ -76,7 +76,7 @@ pub const _EXIF_TAG_IPTC_NAA: u16 = 0x83bb;
 pub const _EXIF_TAG_IMAGE_RESOURCES: u16 = 0x8649;
 pub const EXIF_TAG_EXIF_IFD_POINTER: u16 = 0x8769;
 pub const _EXIF_TAG_INTER_COLOR_PROFILE: u16 = 0x8773;
-pub const _EXIF_TAG_EXPOSURE_PROGRAM: u16 = 0x8822;
+pub const EXIF_TAG_EXPOSURE_PROGRAM: u16 = 0x8822;
 pub const _EXIF_TAG_SPECTRAL_SENSITIVITY: u16 = 0x8824;
 pub const EXIF_TAG_GPS_INFO_IFD_POINTER: u16 = 0x8825;
 pub const _EXIF_TAG_ISO_SPEED_RATINGS: u16 = 0x8827;
@@ -131,7 +131,7 @@ pub const _EXIF_TAG_CONTRAST: u16 = 0xa408;
 pub const _EXIF_TAG_SATURATION: u16 = 0xa409;
 pub const _EXIF_TAG_SHARPNESS: u16 = 0xa40a;
 pub const _EXIF_TAG_DEVICE_SETTING_DESCRIPTION: u16 = 0xa40b;
-pub const _EXIF_TAG_SUBJECT_DISTANCE_RANGE: u16 = 0xa40c;
+pub const EXIF_TAG_SUBJECT_DISTANCE_RANGE: u16 = 0xa40c;
 pub const _EXIF_TAG_IMAGE_UNIQUE_ID: u16 = 0xa420;
 pub const EXIF_TAG_CAMERA_OWNER_NAME: u16 = 0xa430;
 pub const EXIF_TAG_BODY_SERIAL_NUMBER: u16 = 0xa431;
-- 
2.43.0


From 13d0ab0f45fd477051cff9f49cd74d2e36826fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:08 +0000
Subject: [PATCH 66/69] fix: the CRW orientation is written as a short, so that
 is its type

Read as a long it is shifted on big endian files, and has the upper half of
the image height on the others.
---
 src/canon/crw/ciff/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 430079d..923336e 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -320,7 +320,7 @@ impl Container {
                 self.endian_write_u16(&mut buffer, image_spec.exif_orientation());
                 let entry = Entry::new(
                     exif::EXIF_TAG_ORIENTATION,
-                    exif::TagType::Long as i16,
+                    exif::TagType::Short as i16,
                     1,
                     buffer,
                 );
-- 
2.43.0


From e026a218fc7ef188ca06eecb62539f90cde97468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:08 +0000
Subject: [PATCH 67/69] fix: the id of the Leica X maker notes has the Exif.
 prefix like all others

---
 src/tiff/dir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 075824f..d70a3e5 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -343,7 +343,7 @@ impl Dir {
                             0x10 | // Leica X-U (Typ 113)
                             0x1a =>
                                 return Dir::new_makernote(
-                                    b"Leica5\0",
+                                    b"Exif.Leica5\0",
                                     container,
                                     container::Endian::Unset,
                                     offset + 8,
-- 
2.43.0


From 49772432235724c57f09ae20a618e4e71c956d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:02 +0000
Subject: [PATCH 68/69] fix: asking for a CR3 metadata block of a file without
 the Canon header isn't a panic

---
 src/mp4/container.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/mp4/container.rs b/src/mp4/container.rs
index 4611482..fcfa779 100644
--- a/src/mp4/container.rs
+++ b/src/mp4/container.rs
@@ -190,8 +190,7 @@ impl Container {
             })
         }
 
-        let len = self
-            .meta_ifds
+        self.meta_ifds
             .get_or_init(|| {
                 if let Ok(craw) = self.craw_header() {
                     vec![
@@ -208,13 +207,8 @@ impl Container {
                     vec![]
                 }
             })
-            .len();
-
-        if len < idx as usize {
-            None
-        } else {
-            self.meta_ifds.get().and_then(|v| v[idx as usize].as_ref())
-        }
+            .get(idx as usize)
+            .and_then(|holder| holder.as_ref())
     }
 
     /// Number of tracks in the ISO container
-- 
2.43.0


From 0957056766f2fc12fdef69b276b2f03c4ca09cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:37 +0000
Subject: [PATCH 69/69] fix: the blue white balance of NRW files comes from the
 blue level

---
 src/nikon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index cfbdd8c..ec715dd 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -516,7 +516,7 @@ impl NefFile {
             let g =
                 (LittleEndian::read_u32(&data[4..]) + LittleEndian::read_u32(&data[8..])) as f64;
             let b = (LittleEndian::read_u32(&data[12..]) << 2) as f64;
-            Some([g / r, 1.0, b / r])
+            Some([g / r, 1.0, g / b])
         } else {
             log::error!("ColorBalanceA format unknown");
             None
-- 
2.43.0

