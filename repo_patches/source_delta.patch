From f74c3790814e340cb3f7180ec2afebc0af88e9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 01/53] fix: handle 0xFF fill bytes in front of JPEG markers

---
 src/jpg.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/jpg.rs b/src/jpg.rs
index 2ce0949..cf5d148 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -138,6 +138,12 @@ clear_segment
 
         if previous_byte_was_marker_prefix
         {
+            // Any marker may be preceded by additional 0xFF fill bytes
+            if byte_buffer[0] == JPG_MARKER_PREFIX
+            {
+                continue;
+            }
+
             // Check if this is the end of the file. In that case, the length
             // data can't be read and we need to return prematurely. 
             if byte_buffer[0] == 0xd9                                           // EOI marker
@@ -406,6 +412,11 @@ skip_ecs
                     // Do nothing
                 },
 
+                JPG_MARKER_PREFIX => {
+                    // Fill byte, the marker is yet to come
+                    continue;
+                },
+
                 _ => {
                     // Position back to where the 0xFF byte is located
                     cursor.seek(SeekFrom::Current(-2))?;
@@ -442,6 +453,12 @@ generic_read_metadata
 
         if previous_byte_was_marker_prefix
         {
+            // Any marker may be preceded by additional 0xFF fill bytes
+            if byte_buffer[0] == JPG_MARKER_PREFIX
+            {
+                continue;
+            }
+
             // Check if this is the end of the file. In that case, the length
             // data can't be read and we need to return prematurely. 
             // This is why this case can't be included in the match afterwards.
-- 
2.43.0


From 68bd776f82e9d737171936d084d85bc0998ee785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 02/53] fix: skip APP1 segments without EXIF header when
 reading from JPEG

---
 src/jpg.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index cf5d148..065d0b0 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -485,11 +485,15 @@ generic_read_metadata
             match byte_buffer[0]
             {
                 0xe1 => {                                                       // APP1 marker
-                    // Read in & return the remaining data
+                    // Read in & return the remaining data if this is EXIF data
                     let mut app1_buffer = vec![0u8; remaining_length];
                     cursor.read_exact(&mut app1_buffer)?;
 
-                    return Ok(app1_buffer);
+                    // APP1 is also used by others (e.g. XMP), skip these
+                    if app1_buffer.starts_with(&EXIF_HEADER)
+                    {
+                        return Ok(app1_buffer);
+                    }
                 },
 
                 0xda => {                                                       // SOS marker
-- 
2.43.0


From 3378d069b026e64f84c4004025aa89fb13cf3974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 03/53] fix: truncate JPEG file after writing shorter metadata

---
 src/jpg.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jpg.rs b/src/jpg.rs
index 065d0b0..8c075a4 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -344,6 +344,9 @@ file_write_metadata
     file.seek(SeekFrom::Start(0))?;
     file.write_all(&file_buffer)?;
 
+    // The new data may be shorter, don't leave remains of the old data behind
+    file.set_len(file_buffer.len() as u64)?;
+
     return Ok(());
 }
 
-- 
2.43.0


From d8d685ae137363b14d092b4643dd463d34933057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 04/53] fix: report metadata that is too large for a JPEG APP1
 segment

---
 src/jpg.rs                  | 17 ++++++++++-------
 src/metadata/metadata_io.rs |  2 +-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 8c075a4..b532db1 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -27,14 +27,17 @@ encode_metadata_jpg
 (
     exif_vec: &[u8],
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     // vector storing the data that will be returned
     let mut jpg_exif: Vec<u8> = Vec::new();
 
     // Compute the length of the exif data (includes the two bytes of the
     // actual length field)
-    let length = 2u16 + (EXIF_HEADER.len() as u16) + (exif_vec.len() as u16);
+    let Ok(length) = u16::try_from(2 + EXIF_HEADER.len() + exif_vec.len()) else
+    {
+        return io_error!(InvalidInput, "Metadata does not fit into a single APP1 segment!");
+    };
 
     // Start with the APP1 marker and the length of the data
     // Then copy the previously encoded EXIF data 
@@ -43,7 +46,7 @@ encode_metadata_jpg
     jpg_exif.extend(EXIF_HEADER.iter());
     jpg_exif.extend(exif_vec.iter());
 
-    return jpg_exif;
+    return Ok(jpg_exif);
 }
 
 
@@ -290,7 +293,7 @@ as_u8_vec
 (
     general_encoded_metadata: &[u8],
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     encode_metadata_jpg(general_encoded_metadata)
 }
@@ -305,12 +308,12 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
+    // Encode the data specifically for JPG
+    let mut encoded_metadata = encode_metadata_jpg(&metadata.encode()?)?;
+
     // Remove old metadata
     clear_metadata(file_buffer)?;
 
-    // Encode the data specifically for JPG
-    let mut encoded_metadata = encode_metadata_jpg(&metadata.encode()?);
-
     // Insert the metadata right after the signature
     crate::util::insert_multiple_at(file_buffer, 2, &mut encoded_metadata);
 
diff --git a/src/metadata/metadata_io.rs b/src/metadata/metadata_io.rs
index 3051daf..06bb2bf 100644
--- a/src/metadata/metadata_io.rs
+++ b/src/metadata/metadata_io.rs
@@ -389,7 +389,7 @@ Metadata
             FileExtension::PNG { as_zTXt_chunk } 
                 =>  png::as_u8_vec(&general_encoded_metadata, as_zTXt_chunk),
             FileExtension::JPEG 
-                =>  jpg::as_u8_vec(&general_encoded_metadata),
+                =>  jpg::as_u8_vec(&general_encoded_metadata)?,
             FileExtension::WEBP 
                  => webp::as_u8_vec(&general_encoded_metadata),
             FileExtension::HEIF 
-- 
2.43.0


From e98e1c2dc148e7c3094a5e78be3e288591dd32c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:50 +0000
Subject: [PATCH 05/53] fix: reject JPEG segment lengths below two when
 clearing a segment

---
 src/jpg.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jpg.rs b/src/jpg.rs
index b532db1..a1b9c92 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -162,6 +162,11 @@ clear_segment
 
             // Decode the length to determine how much more data there is
             let length = from_u8_vec_res_macro!(u16, &length_buffer, &Endian::Big)?;
+            if length < 2
+            {
+                return io_error!(InvalidData, "Mangled JPG data encountered!");
+            }
+
             let remaining_length = (length - 2) as usize;
 
             if byte_buffer[0] == segment_marker                                 // Given marker, e.g. for APP1
-- 
2.43.0


From 5f720220b7fc305617ec32067ab4fc01142ce333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 06/53] fix: leave the buffer unchanged when an operation on it
 fails

---
 src/metadata/metadata_io.rs | 41 ++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/metadata/metadata_io.rs b/src/metadata/metadata_io.rs
index 06bb2bf..aaf3b39 100644
--- a/src/metadata/metadata_io.rs
+++ b/src/metadata/metadata_io.rs
@@ -18,6 +18,23 @@ use crate::webp;
 
 use super::Metadata;
 
+/// Applies a modification to a copy of the given buffer and only takes over
+/// the result in case of success, so that a failing operation does not leave
+/// a half-modified image behind
+fn
+modify_buffer
+(
+    file_buffer:  &mut Vec<u8>,
+    modification: impl FnOnce(&mut Vec<u8>) -> Result<(), std::io::Error>
+)
+-> Result<(), std::io::Error>
+{
+    let mut working_copy = file_buffer.clone();
+    modification(&mut working_copy)?;
+    *file_buffer = working_copy;
+    return Ok(());
+}
+
 impl
 Metadata
 {
@@ -192,7 +209,7 @@ Metadata
     )
     -> Result<(), std::io::Error>
     {
-        match file_type
+        modify_buffer(file_buffer, |file_buffer| match file_type
         {
             FileExtension::HEIF
                 => heif::clear_metadata(file_buffer),
@@ -207,14 +224,14 @@ Metadata
             FileExtension::WEBP
                 => webp::vec::clear_metadata(file_buffer),
             _
-                => return io_error!(
+                => io_error!(
                     Other, 
                     format!(
                         "Function 'clear_metadata' not yet implemented for {:?}", 
                         file_type
                     )
                 ),
-        }
+        })
     }
 
     /// Clears the APP12 segment in a JPEG file that contains data resulting
@@ -230,19 +247,19 @@ Metadata
     )
     -> Result<(), std::io::Error>
     {
-        match file_type
+        modify_buffer(file_buffer, |file_buffer| match file_type
         {
             FileExtension::JPEG 
                 =>  jpg::clear_segment(file_buffer, 0xec, None),
             _
-                => return io_error!(
+                => io_error!(
                     Other, 
                     format!(
                         "Function 'clear_app12_segment' not available for {:?} (only relevant for JPEG)", 
                         file_type
                     )
                 ),
-        }
+        })
     }
 
     /// Clears the APP13 segment in a JPEG file that contains data resulting
@@ -258,19 +275,19 @@ Metadata
     )
     -> Result<(), std::io::Error>
     {
-        match file_type
+        modify_buffer(file_buffer, |file_buffer| match file_type
         {
             FileExtension::JPEG 
                 =>  jpg::clear_segment(file_buffer, 0xed, None),
             _
-                => return io_error!(
+                => io_error!(
                     Other, 
                     format!(
                         "Function 'clear_app13_segment' not available for {:?} (only relevant for JPEG)", 
                         file_type
                     )
                 ),
-        }
+        })
     }
 
     /// Clears the APP12 segment in a JPEG file that contains data resulting
@@ -418,7 +435,7 @@ Metadata
     )
     -> Result<(), std::io::Error>
     {
-        match file_type
+        modify_buffer(file_buffer, |file_buffer| match file_type
         {
             FileExtension::HEIF
                 => heif::write_metadata(file_buffer, self),
@@ -433,14 +450,14 @@ Metadata
             FileExtension::WEBP
                 => webp::vec::write_metadata(file_buffer, self),
             _
-                => return io_error!(
+                => io_error!(
                     Other, 
                     format!(
                         "Function 'file_clear_metadata' not yet implemented for {:?}", 
                         file_type
                     )
                 ),
-        }
+        })
     }
 
     /// Writes the metadata to the specified file.
-- 
2.43.0


From 72c084d5f6475682392e151514427cac930b982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 07/53] fix: locate EXIF chunks correctly when clearing WebP
 metadata

---
 src/webp/file.rs | 7 +++++--
 src/webp/vec.rs  | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 371c678..f9d8d03 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -585,8 +585,8 @@ clear_metadata
     // Compute a delta of how much the file size information has to change
     let mut delta = 0i32;
 
-    // Skip the WEBP signature
-    file.seek(std::io::SeekFrom::Current(4i64))?;
+    // Skip the RIFF signature, the file size and the WEBP signature
+    file.seek(SeekFrom::Start(12u64))?;
 
     for parsed_chunk in parse_webp_result
     {
@@ -630,6 +630,9 @@ clear_metadata
         // ...and finally update the size of the file
         file.set_len(old_file_byte_count - parsed_chunk_byte_count)?;
 
+        // The next chunk now starts where the EXIF chunk was located
+        file.seek(exif_chunk_start_cursor_position)?;
+
         // Additionally, update the size information that gets written to the 
         // file header after this loop
         delta -= parsed_chunk_byte_count as i32;
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 129bcf9..df402b3 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -542,8 +542,8 @@ clear_metadata
     // Compute a delta of how much the file size information has to change
     let mut delta = 0i32;
 
-    // Skip the WEBP signature
-    cursor.set_position(4);
+    // Skip the RIFF signature, the file size and the WEBP signature
+    cursor.set_position(12);
 
     for parsed_chunk in parse_webp_result
     {
-- 
2.43.0


From de89f4f6182443b35331c56051de328bf0169f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 08/53] fix: derive VP8X dimensions and alpha flag from the
 WebP bitstream

---
 src/webp/file.rs | 25 +++++++++++--------------
 src/webp/vec.rs  | 27 ++++++++++++---------------
 2 files changed, 23 insertions(+), 29 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index f9d8d03..dab60b2 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -428,6 +428,12 @@ convert_to_extended_format
         0x00, 0x00, 0x00, 0x00, // Flags and reserved area                         -> 4 byte
     ];
 
+    // A VP8L bitstream announces transparency in the bit after the dimensions
+    if first_chunk.descriptor().header() == "VP8L" && first_chunk.payload()[4] & 0x10 != 0
+    {
+        vp8x_chunk[8] |= 0x10;
+    }
+
     // Add the two 24 bits for width and height information
     for byte in  width_vec.iter().take(3) { vp8x_chunk.push(*byte); }
     for byte in height_vec.iter().take(3) { vp8x_chunk.push(*byte); }
@@ -475,20 +481,11 @@ get_dimension_info_from_vp8l_chunk
     // Convert to a single u32 number for bit-mask operations
     let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
     
-    let mut width  = 0;
-    let mut height = 0;
-
-    // Get the first 14 bit to construct the width
-    for bit_index in 0..14
-    {
-        width  |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    // Get the next 14 bit to construct the height
-    for bit_index in 14..28
-    {
-        height |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
+    // The first (i.e. least significant) 14 bits are the width minus one, the
+    // next 14 bits are the height minus one
+    let bitmask_14 = (1 << 14) - 1;
+    let width  =  width_height_info        & bitmask_14;
+    let height = (width_height_info >> 14) & bitmask_14;
 
     return Ok((width, height));
 }
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index df402b3..cee8f2b 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -397,7 +397,7 @@ convert_to_extended_format
     let (width, height) = match first_chunk.descriptor().header().as_str()
     {
         "VP8 "
-            => {log::debug!("VP8 !"); io_error!(Other, "Conversion from Simple File Format with 'VP8' chunk to Extended File Format not yet implemented!") },
+            => get_dimension_info_from_vp8_chunk(first_chunk.payload()),
         "VP8L"
             => get_dimension_info_from_vp8l_chunk(first_chunk.payload()),
         _ 
@@ -413,6 +413,12 @@ convert_to_extended_format
         0x00, 0x00, 0x00, 0x00, // Flags and reserved area                         -> 4 byte
     ];
 
+    // A VP8L bitstream announces transparency in the bit after the dimensions
+    if first_chunk.descriptor().header() == "VP8L" && first_chunk.payload()[4] & 0x10 != 0
+    {
+        vp8x_chunk[8] |= 0x10;
+    }
+
     // Add the two 24 bits for width and height information
     for byte in  width_vec.iter().take(3) { vp8x_chunk.push(*byte); }
     for byte in height_vec.iter().take(3) { vp8x_chunk.push(*byte); }
@@ -444,20 +450,11 @@ get_dimension_info_from_vp8l_chunk
     // Convert to a single u32 number for bit-mask operations
     let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
     
-    let mut width  = 0;
-    let mut height = 0;
-
-    // Get the first 14 bit to construct the width
-    for bit_index in 0..14
-    {
-        width  |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    // Get the next 14 bit to construct the height
-    for bit_index in 14..28
-    {
-        height |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
+    // The first (i.e. least significant) 14 bits are the width minus one, the
+    // next 14 bits are the height minus one
+    let bitmask_14 = (1 << 14) - 1;
+    let width  =  width_height_info        & bitmask_14;
+    let height = (width_height_info >> 14) & bitmask_14;
 
     return Ok((width, height));
 }
-- 
2.43.0


From 2fc1abcb5c0ea066de1ee5be3308a626391cad2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 09/53] fix: insert the WebP EXIF chunk between the image data
 and the other metadata

---
 src/webp/file.rs | 19 ++++++++++++-------
 src/webp/vec.rs  | 19 ++++++++++++-------
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index dab60b2..a7753ea 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -668,15 +668,18 @@ write_metadata
     let mut file = check_signature(path)?;
 
     // ...and find a location where to put the EXIF chunk
-    // This is done by requesting a chunk descriptor as long as we find a chunk
-    // that is both known and should be located *before* the EXIF chunk
+    // This is done by requesting all chunk descriptors and looking for the last
+    // chunk that is both known and should be located *before* the EXIF chunk
     let pre_exif_chunks = [
         "VP8X",
-        "VP8",
+        "VP8 ",
         "VP8L",
         "ICCP",
-        "ANIM"
+        "ANIM",
+        "ANMF",
+        "ALPH"
     ];
+    let mut insert_position = 12;
 
     loop
     {
@@ -696,9 +699,10 @@ write_metadata
                     chunk_type_found_in_pre_exif_chunks |= pre_exif_chunk.to_lowercase() == chunk_descriptor.header().to_lowercase();
                 }
 
-                if !chunk_type_found_in_pre_exif_chunks
+                // The EXIF chunk goes after the last one of these chunks
+                if chunk_type_found_in_pre_exif_chunks
                 {
-                    break;
+                    insert_position = file.stream_position()?;
                 }
             },
             Err(e) => {
@@ -714,8 +718,9 @@ write_metadata
     }
 
     // Next, read remaining file into a buffer...
-    let current_file_cursor = SeekFrom::Start(file.stream_position()?);
+    let current_file_cursor = SeekFrom::Start(insert_position);
     let mut read_buffer = Vec::new();
+    file.seek(current_file_cursor)?;
     file.read_to_end(&mut read_buffer)?;
 
     // ...and write the EXIF chunk at the previously found location...
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index cee8f2b..5dc3960 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -603,14 +603,16 @@ write_metadata
     let encoded_metadata_len = encoded_metadata.len() as i32;
 
     // Find a location where to put the EXIF chunk
-    // This is done by requesting a chunk descriptor as long as we find a chunk
-    // that is both known and should be located *before* the EXIF chunk
+    // This is done by requesting all chunk descriptors and looking for the last
+    // chunk that is both known and should be located *before* the EXIF chunk
     let pre_exif_chunks = [
         "VP8X",
-        "VP8",
+        "VP8 ",
         "VP8L",
         "ICCP",
-        "ANIM"
+        "ANIM",
+        "ANMF",
+        "ALPH"
     ];
 
     // Clippy wrongly needs this allowance, otherwise it states that this call
@@ -621,6 +623,8 @@ write_metadata
     // I guess there is a less messy solution to this?
     #[allow(clippy::useless_asref)]
     let mut read_cursor = Cursor::new(file_buffer.as_ref());
+    read_cursor.set_position(12);
+    let mut insert_position = 12;
 
     loop
     {
@@ -640,9 +644,10 @@ write_metadata
                     chunk_type_found_in_pre_exif_chunks |= pre_exif_chunk.to_lowercase() == chunk_descriptor.header().to_lowercase();
                 }
 
-                if !chunk_type_found_in_pre_exif_chunks
+                // The EXIF chunk goes after the last one of these chunks
+                if chunk_type_found_in_pre_exif_chunks
                 {
-                    break;
+                    insert_position = read_cursor.position();
                 }
             },
             Err(e) => {
@@ -658,7 +663,7 @@ write_metadata
     }
 
     // Write the EXIF chunk at the found location
-    insert_multiple_at(file_buffer, read_cursor.position() as usize, &mut encoded_metadata);
+    insert_multiple_at(file_buffer, insert_position as usize, &mut encoded_metadata);
 
     // Update the file size information by adding the byte count of the EXIF chunk
     // (Note: Due to  the WebP specific encoding function, this vector already
-- 
2.43.0


From 682477a11a3e30ca9886c8f870a48f154211dc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 10/53] fix: handle JXL boxes with 64 bit, open-ended or
 invalid lengths

---
 src/jxl.rs | 166 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 95 insertions(+), 71 deletions(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index ee028e6..c7c8502 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -125,6 +125,52 @@ file_check_signature
 
 
 
+/// Reads the header of the box at the current cursor position and advances the
+/// cursor to the start of the box data.
+/// Returns the type of the box and the length of its data, taking into account
+/// boxes with a 64 bit length and boxes that extend to the end of the image
+fn
+read_box_header
+<T: Seek + Read>
+(
+    cursor: &mut T
+)
+-> Result<([u8; 4], u64), std::io::Error>
+{
+    let mut length_buffer = [0u8; 4];
+    cursor.read_exact(&mut length_buffer)?;
+
+    let mut type_buffer = [0u8; 4];
+    cursor.read_exact(&mut type_buffer)?;
+
+    let opt_data_length = match from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?
+    {
+        0 => {
+            let position = cursor.stream_position()?;
+            let end      = cursor.seek(SeekFrom::End(0))?;
+            cursor.seek(SeekFrom::Start(position))?;
+            end.checked_sub(position)
+        },
+        1 => {
+            let mut large_length_buffer = [0u8; 8];
+            cursor.read_exact(&mut large_length_buffer)?;
+            u64::from_be_bytes(large_length_buffer).checked_sub(16)
+        },
+        length => (length as u64).checked_sub(8),
+    };
+
+    // Limit this to values that can be used for relative seek operations
+    match opt_data_length
+    {
+        Some(length) if length < i64::MAX as u64 / 2
+            => Ok((type_buffer, length)),
+        _
+            => io_error!(InvalidData, "Invalid box length found in JXL data!")
+    }
+}
+
+
+
 pub(crate) fn
 clear_metadata
 (
@@ -140,27 +186,20 @@ clear_metadata
     {
         if position >= file_buffer.len() { return Ok(()); }
 
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box 
-        let length_buffer = file_buffer[position..position+4].to_vec();
-        let length        = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as usize;
+        let mut cursor = Cursor::new(file_buffer.as_slice());
+        cursor.set_position(position as u64);
 
-        // Next, read the box type
-        let type_buffer = file_buffer[position+4..position+8].to_vec();
+        let (box_type, data_length) = read_box_header(&mut cursor)?;
+        let box_end                 = (cursor.position() + data_length) as usize;
 
-        if box_contains_exif(
-            &mut Cursor::new(
-                file_buffer[position+8..position+12].to_vec()
-            ), 
-            [type_buffer[0], type_buffer[1], type_buffer[2], type_buffer[3]]
-        )?
+        if box_contains_exif(&mut cursor, box_type, data_length)?
         {
-            range_remove(file_buffer, position, position+length);
+            range_remove(file_buffer, position, box_end);
         }
         else
         {
             // Not an EXIF box so skip it
-            position += length;
+            position = box_end;
         }
     }
 }
@@ -174,8 +213,8 @@ file_clear_metadata
 {
     let mut file = file_check_signature(path)?;
 
-    let mut length_buffer = [0u8; 4];
-    let mut type_buffer   = [0u8; 4];
+    // Start with the first box
+    file.seek(SeekFrom::Start(0))?;
 
     loop
     {
@@ -183,15 +222,13 @@ file_clear_metadata
         let old_file_length = file.metadata()?.len();
         if position >= old_file_length { return Ok(()); }
 
-        file.read_exact(&mut length_buffer)?;
-        file.read_exact(&mut type_buffer)?;
+        let (box_type, data_length) = read_box_header(&mut file)?;
+        let box_end                 = file.stream_position()? + data_length;
 
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as usize;
-
-        if box_contains_exif(&mut file, type_buffer)?
+        if box_contains_exif(&mut file, box_type, data_length)?
         {
             // Seek past the EXIF box ...
-            file.seek(SeekFrom::Current((length-8) as i64))?;
+            file.seek(SeekFrom::Start(box_end))?;
 
 
             // ... copy everything from here onwards into a buffer ...
@@ -207,13 +244,12 @@ file_clear_metadata
 
             // ... and finally update the file size - otherwise there will be
             // duplicate bytes at the end!
-            file.set_len(old_file_length - length as u64)?;
+            file.set_len(position + buffer.len() as u64)?;
         }
         else
         {
             // Not an EXIF box so skip it
-            assert_eq!(position+8, file.stream_position()?);
-            file.seek(SeekFrom::Current((length-8) as i64))?;
+            file.seek(SeekFrom::Start(box_end))?;
         }
     }
 }
@@ -246,6 +282,7 @@ box_contains_exif
 (
     cursor:      &mut T,
     type_buffer:  [u8; 4],
+    data_length:  u64,
 )
 -> Result<bool, std::io::Error>
 {
@@ -253,7 +290,7 @@ box_contains_exif
     {
         return Ok(true);
     }
-    if type_buffer == BROB_BOX && check_brob_type_for_exif(cursor)?
+    if type_buffer == BROB_BOX && data_length >= 4 && check_brob_type_for_exif(cursor)?
     {
         return Ok(true);
     }
@@ -300,6 +337,25 @@ file_read_metadata
     return generic_read_metadata(&mut file);
 }
 
+/// Reads the given amount of bytes, starting at the current cursor position
+fn
+read_box_data
+<T: Seek + Read>
+(
+    cursor: &mut T,
+    length: u64
+)
+-> Result<Vec<u8>, std::io::Error>
+{
+    let mut data = Vec::new();
+    if cursor.take(length).read_to_end(&mut data)? as u64 != length
+    {
+        return io_error!(UnexpectedEof, "JXL box is larger than the image!");
+    }
+
+    return Ok(data);
+}
+
 fn
 generic_read_metadata
 <T: Seek + Read>
@@ -310,21 +366,8 @@ generic_read_metadata
 {
     loop
     {
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box (and account for the 8 bytes of length
-        // and box type)
-        let mut length_buffer = [0u8; 4];
-        cursor.read_exact(&mut length_buffer)?;
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?.checked_sub(8).ok_or(
-            std::io::Error::new(
-                std::io::ErrorKind::InvalidData,
-                "Invalid box length found when reading JXL metadata!"
-            )
-        )?;
-
-        // Next, read the box type
-        let mut type_buffer = [0u8; 4];
-        cursor.read_exact(&mut type_buffer)?;
+        // Get the type of the current box and the length of its data
+        let (type_buffer, length) = read_box_header(cursor)?;
 
         match type_buffer
         {
@@ -333,27 +376,20 @@ generic_read_metadata
                 cursor.seek(SeekFrom::Current(4))?;
 
                 // `length-4` because of the previous relative seek operation
-                let mut exif_buffer = vec![0u8; (length-4) as usize];
-                cursor.read_exact(&mut exif_buffer)?;
-
-                return Ok(exif_buffer);
+                return read_box_data(cursor, length.saturating_sub(4));
             },
 
             BROB_BOX => { // -> Brotli encoded data
 
-                let position = cursor.stream_position()? as usize;
+                let position = cursor.stream_position()?;
 
-                if check_brob_type_for_exif(cursor)?
+                if box_contains_exif(cursor, type_buffer, length)?
                 {
                     // Skip the next 4 bytes (which contain the minor version???)
                     cursor.seek(SeekFrom::Current(4))?;
 
-                    let mut compressed_exif_buffer = vec![
-                        0u8; 
-                        (length-4) as usize
-                    ];
-                    cursor.read_exact(&mut compressed_exif_buffer)?;
-                    
+                    let compressed_exif_buffer = read_box_data(cursor, length - 4)?;
+
                     let mut decompressed_exif_buffer = Vec::new();
 
                     match brotli::BrotliDecompress(
@@ -367,11 +403,11 @@ generic_read_metadata
 
                     // Ignore the next 4 bytes (I guess for the same reason 
                     // as above - some sort of minor version?)
-                    return Ok(decompressed_exif_buffer[4..].to_vec());
+                    return Ok(decompressed_exif_buffer.into_iter().skip(4).collect());
                 }
                 else 
                 {
-                    cursor.seek(SeekFrom::Start(position as u64 + length as u64))?;
+                    cursor.seek(SeekFrom::Start(position + length))?;
                 }
             }
 
@@ -419,21 +455,9 @@ find_insert_position
 
     loop
     {
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box (and account for the 8 bytes of length
-        // and box type)
-        let mut length_buffer = [0u8; 4];
-        cursor.read_exact(&mut length_buffer)?;
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?.checked_sub(8).ok_or(
-            std::io::Error::new(
-                std::io::ErrorKind::InvalidData,
-                "Invalid box length found when reading JXL metadata!"
-            )
-        )? as usize;
-
-        // Next, read the box type
-        let mut type_buffer = [0u8; 4];
-        cursor.read_exact(&mut type_buffer)?;
+        // Get the type of the current box and the length of its data
+        let box_start             = cursor.position() as usize;
+        let (type_buffer, length) = read_box_header(&mut cursor)?;
 
         match type_buffer
         {
@@ -443,7 +467,7 @@ find_insert_position
                 cursor.seek(SeekFrom::Current(length as i64))?;
             }
             _ => {
-                return Ok(cursor.position() as usize - 8);
+                return Ok(box_start);
             }
         }
     }
-- 
2.43.0


From 104e36ad167a8e1e2914a64d3221d60981a42798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 11/53] fix: truncate JXL file after writing shorter metadata

---
 src/jxl.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index c7c8502..65a1660 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -533,9 +533,10 @@ file_write_metadata
     // specific encoding, so we pass only the generally encoded metadata here
     write_metadata(&mut file_buffer, metadata)?;
 
-    // Seek back to start & write the file
+    // Seek back to start & write the file, which may be shorter than before
     file.seek(SeekFrom::Start(0))?;
     file.write_all(&file_buffer)?;
+    file.set_len(file_buffer.len() as u64)?;
 
     return Ok(());
 }
\ No newline at end of file
-- 
2.43.0


From a689a8b1c8e893a6efd05f7e95407eea3172bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:16 +0000
Subject: [PATCH 12/53] fix: keep the compression method of a PNG zTXt chunk
 when filtering XMP

---
 src/png/text.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/png/text.rs b/src/png/text.rs
index ecbf03a..9b99856 100644
--- a/src/png/text.rs
+++ b/src/png/text.rs
@@ -167,6 +167,7 @@ construct_similar_with_new_data
                 );
             }
 
+            new_chunk_data.push(0x00);
             new_chunk_data.extend(compress_to_vec_zlib(new_data, 8).iter());
         },
 
-- 
2.43.0


From 4b9dbb6bf188236206627268546b113899afafe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 13/53] fix: do not damage XMP packets when removing EXIF
 elements

---
 src/xmp.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/xmp.rs b/src/xmp.rs
index 707ece2..d2804f6 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -40,11 +40,13 @@ remove_exif_from_xmp
             Ok(Event::Start(ref event)) => {
                 let event_name = String::from_utf8(event.name().0.to_vec())?;
 
-                if event_name.starts_with("exif:")
+                // While skipping, nested elements need to be counted as well as
+                // their end events also reduce the depth
+                if event_name.starts_with("exif:") || skip_depth > 0
                 {
                     skip_depth += 1;
                 }
-                else if skip_depth == 0
+                else
                 {
                     writer.write_event(Event::Start(get_exif_filtered_event(event)?))?;
                 }
@@ -76,7 +78,10 @@ remove_exif_from_xmp
             }
 
             Ok(Event::Eof) => {
-                assert_eq!(skip_depth, 0);
+                if skip_depth != 0
+                {
+                    return Err("XMP data ends within EXIF element".into());
+                }
                 break;
             }
 
@@ -107,7 +112,7 @@ remove_exif_from_xmp
                     reader.buffer_position(), 
                     error_message
                 );
-                break;
+                return Err(error_message.into());
             }
         };
 
-- 
2.43.0


From fc2ceaa44e57e4c2ffc1527ff78aba35980580e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:21 +0000
Subject: [PATCH 14/53] fix: reject malformed PNG text chunks instead of
 panicking

---
 src/png/mod.rs  | 16 +++++++++-----
 src/png/read.rs |  4 ++--
 src/png/text.rs | 59 ++++++++++++++++++++++++++++++++++---------------
 3 files changed, 54 insertions(+), 25 deletions(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index 623f9ce..a5144a5 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -794,7 +794,7 @@ decode_metadata_png
         let mut counter = 0;
         for header_value in &EXIF_HEADER
         {
-            if *header_value != exif_all[counter]
+            if exif_all.get(counter) != Some(header_value)
             {
                 break;
             }
@@ -814,7 +814,7 @@ decode_metadata_png
         // with the endian information? See issue #54
         for endian_info in &LITTLE_ENDIAN_INFO
         {
-            if *endian_info != exif_all[counter]
+            if exif_all.get(counter) != Some(endian_info)
             {
                 break;
             }
@@ -831,7 +831,7 @@ decode_metadata_png
         // And the same check for big endian
         for endian_info in &BIG_ENDIAN_INFO
         {
-            if *endian_info != exif_all[counter]
+            if exif_all.get(counter) != Some(endian_info)
             {
                 break;
             }
@@ -864,7 +864,10 @@ decode_metadata_png
     //    that will now get extracted
     // Consider this part optional as it might be removed in the future and
     // isn't strictly necessary and just for validating the data we get
-    assert!(!pop_storage.is_empty());
+    if pop_storage.is_empty()
+    {
+        return io_error!(InvalidData, "Can't decode PNG EXIF data - No size information found!");
+    }
 
     // Using the encode_byte function re-encode the bytes regarding the size
     // information and construct its value using decimal based shifting
@@ -890,7 +893,10 @@ decode_metadata_png
         given_exif_len += ones_place *  1 * 10_u64.pow((2 * i) as u32);
     }
 
-    assert_eq!(given_exif_len, exif_all.len() as u64);
+    if given_exif_len != exif_all.len() as u64
+    {
+        return io_error!(InvalidData, "Can't decode PNG EXIF data - Size information does not match!");
+    }
     // End optional part
 
     return Ok(Vec::from(exif_all));
diff --git a/src/png/read.rs b/src/png/read.rs
index 715c949..a0b092f 100644
--- a/src/png/read.rs
+++ b/src/png/read.rs
@@ -50,8 +50,8 @@ read_chunk_data
 )
 -> Result<Vec<u8>, std::io::Error>
 {
-    let mut chunk_data_buffer = vec![0u8; chunk_length];
-    let     bytes_read        = cursor.read(&mut chunk_data_buffer)?;
+    let mut chunk_data_buffer = Vec::new();
+    let     bytes_read        = cursor.take(chunk_length as u64).read_to_end(&mut chunk_data_buffer)?;
     
     if bytes_read != chunk_length
     {
diff --git a/src/png/text.rs b/src/png/text.rs
index 9b99856..12ed6cc 100644
--- a/src/png/text.rs
+++ b/src/png/text.rs
@@ -5,6 +5,7 @@ use miniz_oxide::inflate::decompress_to_vec_zlib;
 use miniz_oxide::deflate::compress_to_vec_zlib;
 
 use crate::general_file_io::io_error;
+use crate::io_error_plain;
 
 /// This gets the keyword of a $TEXT chunk.
 /// Fortunately, this is the same for tEXt, zTXt and iTXt, as they all
@@ -25,6 +26,23 @@ get_keyword_from_text_chunk
     return String::from_utf8_lossy(&keyword_buffer).into_owned()
 }
 
+/// Gets the part of the chunk data that starts at the given position, which
+/// might be out of bounds in case of a malformed chunk
+fn
+get_data_starting_at
+(
+    chunk_data: &[u8],
+    data_start: usize,
+)
+-> Result<&[u8], std::io::Error>
+{
+    return match chunk_data.get(data_start..)
+    {
+        Some(data) => Ok(data),
+        None       => io_error!(InvalidData, "Malformed PNG text chunk!"),
+    };
+}
+
 pub(crate) fn
 get_data_from_text_chunk
 (
@@ -44,7 +62,7 @@ get_data_from_text_chunk
             // For this we take the keyword length and add 1 for the NUL byte
             let data_start = keyword_length + 1;
             
-            return Ok(chunk_data[data_start..].to_vec());
+            return Ok(get_data_starting_at(chunk_data, data_start)?.to_vec());
         },
 
         "zTXt" => {
@@ -54,7 +72,7 @@ get_data_from_text_chunk
             let data_start = keyword_length + 2;
 
             // Check compression method
-            if chunk_data[keyword_length + 1] != 0x00
+            if chunk_data.get(keyword_length + 1) != Some(&0x00)
             {
                 return io_error!(
                     Other,
@@ -64,7 +82,7 @@ get_data_from_text_chunk
 
             // Decode zlib data
             if let Ok(decompressed_data) = decompress_to_vec_zlib(
-                &chunk_data[data_start..]
+                get_data_starting_at(chunk_data, data_start)?
             )
             {
                 return Ok(decompressed_data);
@@ -86,7 +104,7 @@ get_data_from_text_chunk
                 _keyword,
                 language_tag,
                 translated_keyword,
-            ) = get_info_about_iTXt_chunk(chunk_data);
+            ) = get_info_about_iTXt_chunk(chunk_data)?;
 
             let data_start = keyword_length // keyword
                 + 3                         // NUL, compression flag & method
@@ -98,7 +116,7 @@ get_data_from_text_chunk
             if compression_flag == 0x00
             {
                 // No compression, simply return the data
-                return Ok(chunk_data[data_start..].to_vec());
+                return Ok(get_data_starting_at(chunk_data, data_start)?.to_vec());
             }
             
             if compression_method != 0x00
@@ -111,7 +129,7 @@ get_data_from_text_chunk
 
             // Decode zlib data
             if let Ok(decompressed_data) = decompress_to_vec_zlib(
-                &chunk_data[data_start..]
+                get_data_starting_at(chunk_data, data_start)?
             )
             {
                 return Ok(decompressed_data);
@@ -159,7 +177,7 @@ construct_similar_with_new_data
 
         "zTXt" => {
             // Check compression method
-            if old_chunk_data[keyword.len() + 1] != 0x00
+            if old_chunk_data.get(keyword.len() + 1) != Some(&0x00)
             {
                 return io_error!(
                     Other,
@@ -179,7 +197,7 @@ construct_similar_with_new_data
                 _keyword,
                 language_tag,
                 translated_keyword,
-            ) = get_info_about_iTXt_chunk(old_chunk_data);
+            ) = get_info_about_iTXt_chunk(old_chunk_data)?;
 
             // Push compression information
             new_chunk_data.push(compression_flag);
@@ -238,14 +256,19 @@ get_info_about_iTXt_chunk
 (
     chunk_data:   &[u8]
 )
--> (
+-> Result<(
     u8,     // compression flag
     u8,     // compression method
     String, // keyword
     String, // language tag
     String, // translated keyword
-)
+), std::io::Error>
 {
+    let byte_at = |position: usize| get_data_starting_at(chunk_data, position)?
+        .first()
+        .copied()
+        .ok_or(io_error_plain!(InvalidData, "Malformed PNG iTXt chunk!"));
+
     // Tells us where we currently are in the chunk data
     let mut chunk_counter = 0;
 
@@ -254,7 +277,7 @@ get_info_about_iTXt_chunk
 
     loop
     {
-        if chunk_data[chunk_counter] != 0x00
+        if byte_at(chunk_counter)? != 0x00
         {
             keyword_buffer.push(chunk_data[chunk_counter]);
             chunk_counter += 1;
@@ -265,16 +288,16 @@ get_info_about_iTXt_chunk
         }
     }
 
-    let _null_separator_1  = chunk_data[chunk_counter + 0];
-    let compression_flag   = chunk_data[chunk_counter + 1];
-    let compression_method = chunk_data[chunk_counter + 2];
+    let _null_separator_1  = byte_at(chunk_counter + 0)?;
+    let compression_flag   = byte_at(chunk_counter + 1)?;
+    let compression_method = byte_at(chunk_counter + 2)?;
 
     chunk_counter += 3;
     let mut language_tag_buffer = Vec::new();
 
     loop 
     {
-        if chunk_data[chunk_counter] != 0x00
+        if byte_at(chunk_counter)? != 0x00
         {
             language_tag_buffer.push(chunk_data[chunk_counter]);
             chunk_counter += 1;
@@ -290,7 +313,7 @@ get_info_about_iTXt_chunk
 
     loop 
     {
-        if chunk_data[chunk_counter] != 0x00
+        if byte_at(chunk_counter)? != 0x00
         {
             translated_keyword_buffer.push(chunk_data[chunk_counter]);
             chunk_counter += 1;
@@ -301,11 +324,11 @@ get_info_about_iTXt_chunk
         }
     }
 
-    return (
+    return Ok((
         compression_flag,
         compression_method,
         String::from_utf8(keyword_buffer           ).unwrap_or_default(),
         String::from_utf8(language_tag_buffer      ).unwrap_or_default(),
         String::from_utf8(translated_keyword_buffer).unwrap_or_default()
-    );
+    ));
 }
\ No newline at end of file
-- 
2.43.0


From a1df5429e6b25d9efa8069feb16e734fdda8ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:24 +0000
Subject: [PATCH 15/53] fix: restore the file when an operation on it fails

---
 src/metadata/metadata_io.rs | 47 +++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/src/metadata/metadata_io.rs b/src/metadata/metadata_io.rs
index aaf3b39..4a19f71 100644
--- a/src/metadata/metadata_io.rs
+++ b/src/metadata/metadata_io.rs
@@ -2,6 +2,7 @@
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
 use std::io::Cursor;
+use std::io::Read;
 use std::path::Path;
 
 use crate::filetype::get_file_type;
@@ -35,6 +36,28 @@ modify_buffer
     return Ok(());
 }
 
+/// Applies a modification to the file at the given path and restores the file
+/// in case of failure, so that a failing operation does not leave a
+/// half-modified image behind
+fn
+modify_file
+(
+    path:         &Path,
+    modification: impl FnOnce(&Path) -> Result<(), std::io::Error>
+)
+-> Result<(), std::io::Error>
+{
+    let mut backup = Vec::new();
+    open_read_file(path)?.read_to_end(&mut backup)?;
+
+    let result = modification(path);
+    if result.is_err() && std::fs::read(path)? != backup
+    {
+        std::fs::write(path, &backup)?;
+    }
+    return result;
+}
+
 impl
 Metadata
 {
@@ -304,19 +327,19 @@ Metadata
     {
         let file_type = get_file_type(path)?;
 
-        match file_type
+        modify_file(path, |path| match file_type
         {
             FileExtension::JPEG 
                 =>  jpg::file_clear_segment(path, 0xec, None),
             _
-                => return io_error!(
+                => io_error!(
                     Other, 
                     format!(
                         "Function 'file_clear_app12_segment' not available for {:?} (only relevant for JPEG)", 
                         file_type
                     )
                 ),
-        }
+        })
     }
 
     /// Clears the APP13 segment in a JPEG file that contains data resulting
@@ -333,19 +356,19 @@ Metadata
     {
         let file_type = get_file_type(path)?;
 
-        match file_type
+        modify_file(path, |path| match file_type
         {
             FileExtension::JPEG 
                 =>  jpg::file_clear_segment(path, 0xed, None),
             _
-                => return io_error!(
+                => io_error!(
                     Other, 
                     format!(
                         "Function 'file_clear_app13_segment' not available for {:?} (only relevant for JPEG)", 
                         file_type
                     )
                 ),
-        }
+        })
     }
 
     #[allow(unreachable_patterns)]
@@ -358,7 +381,7 @@ Metadata
     {
         let file_type = get_file_type(path)?;
 
-        match file_type
+        modify_file(path, |path| match file_type
         {
             FileExtension::HEIF
                 => heif::file_clear_metadata(path),
@@ -373,14 +396,14 @@ Metadata
             FileExtension::WEBP 
                 => webp::file::clear_metadata(path),
             _
-                => return io_error!(
+                => io_error!(
                     Other, 
                     format!(
                         "Function 'file_clear_metadata' not yet implemented for {:?}", 
                         file_type
                     )
                 ),
-        }
+        })
     }
 
     /// Converts the metadata into a file specific vector of bytes
@@ -476,7 +499,7 @@ Metadata
     {
         let file_type = get_file_type(path)?;
 
-        match file_type
+        modify_file(path, |path| match file_type
         {
             FileExtension::HEIF
                 => heif::file_write_metadata(path, self),
@@ -491,13 +514,13 @@ Metadata
             FileExtension::WEBP 
                 => webp::file::write_metadata(path, self),
             _
-                => return io_error!(
+                => io_error!(
                     Other, 
                     format!(
                         "Function 'write_to_file' not yet implemented for {:?}", 
                         file_type
                     )
                 ),
-        }
+        })
     }
 }
-- 
2.43.0


From 76424a549bbba3273b91ca241b9d0aa27ab2e385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 16/53] fix: write IFD entries in ascending order and compute
 all IFD offset tags

---
 src/ifd/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 72e6e7b..d944ec9 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -493,7 +493,12 @@ ImageFileDirectory
 
         // Store all relevant tags (IFD tags + offset tags) in a temporary 
         // location and sort them there
-        let mut all_relevant_tags = self.tags.clone();
+        // Offset tags for other IFDs that have been set by the user are left
+        // out: Their value is useless and the ones required are added below
+        let mut all_relevant_tags = self.tags.iter()
+            .filter(|tag| !matches!(tag.get_tag_type(), TagType::IFD_OFFSET(_)))
+            .cloned()
+            .collect::<Vec<ExifTag>>();
         if let Some(ifd_with_offset_info_only) = ifds_with_offset_info_only
             .iter()
             .find(|ifd| 
@@ -503,6 +508,7 @@ ImageFileDirectory
         {
             all_relevant_tags.extend(ifd_with_offset_info_only.get_tags().iter().cloned());
         }
+        all_relevant_tags.sort_by_key(|tag| tag.as_u16());
 
         // Start writing this IFD by adding the number of entries
         let count_entries = all_relevant_tags.iter().filter(
-- 
2.43.0


From e5a495dc39f10edbdb4094966d3276253923e06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 17/53] fix: report errors that occur while encoding an IFD

---
 src/metadata/mod.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 4e5ef43..529de51 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -192,22 +192,21 @@ Metadata
 
             let Some(last_ifd) = filter_result.last() else { continue; };
 
-            if let Ok((next_link_section, link_vec)) = last_ifd.encode_ifd(
+            let (next_link_section, link_vec) = last_ifd.encode_ifd(
                 self, 
                 &mut ifds_with_offset_info_only, 
                 &mut encode_vec, 
                 &mut current_offset
-            )
-            {
-                if let Some(index) = index_of_previous_ifds_link_section
-                {
-                    let mut cursor = Cursor::new(&mut encode_vec);
-                    cursor.set_position(index);
-                    cursor.write_all(&link_vec)?;
-                }
+            )?;
 
-                index_of_previous_ifds_link_section = Some(next_link_section);
+            if let Some(index) = index_of_previous_ifds_link_section
+            {
+                let mut cursor = Cursor::new(&mut encode_vec);
+                cursor.set_position(index);
+                cursor.write_all(&link_vec)?;
             }
+
+            index_of_previous_ifds_link_section = Some(next_link_section);
         }
 
         Ok(encode_vec)
-- 
2.43.0


From 1ec168ff0e57495c763e38e5e1f9bf2bbdb06cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 18/53] fix: encode metadata without any tags as an empty IFD

---
 src/metadata/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 529de51..c3f78db 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -209,6 +209,13 @@ Metadata
             index_of_previous_ifds_link_section = Some(next_link_section);
         }
 
+        // The header refers to IFD0, so there has to be one even if there are
+        // no tags at all: No entries and no link to another IFD
+        if encode_vec.len() == self.endian.header().len()
+        {
+            encode_vec.extend([0u8; 6]);
+        }
+
         Ok(encode_vec)
     }
 
-- 
2.43.0


From c31164739c49e8945e6616b01fc8f20789c62dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:57 +0000
Subject: [PATCH 19/53] fix: derive the component count of an IFD entry from
 its data

---
 src/ifd/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index d944ec9..6d1b1c1 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -635,7 +635,9 @@ ImageFileDirectory
             encode_vec.extend(to_u8_vec_macro!(u16, &tag.format().as_u16(), &data.get_endian()).iter());
 
             // Add number of components /                                       4 bytes
-            let number_of_components: u32 = tag.number_of_components();
+            // Note: This has to agree with the data that actually gets written,
+            // e.g. in case there is no data for a tag that usually has some
+            let number_of_components = value.len() as u32 / tag.format().bytes_per_component();
             encode_vec.extend(to_u8_vec_macro!(u32, &number_of_components, &data.get_endian()).iter());
 
             // Optional string padding (i.e. string is shorter than it should be)
-- 
2.43.0


From 6751944ccd7d67f573c2e0fa8039516f8ef5be38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 20/53] fix: reject EXIF data with cyclic IFD links

---
 src/metadata/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index c3f78db..932bd3e 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -7,6 +7,7 @@ pub mod edit;
 pub mod get;
 pub mod set;
 
+use std::collections::HashSet;
 use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
@@ -310,8 +311,15 @@ Metadata
         // Decode all the IFDs
         let mut ifds = Vec::new();
         let mut generic_ifd_nr = 0;
+        let mut known_ifd_offsets = HashSet::new();
         while let Some(ifd_offset) = ifd_offset_option
         {
+            // Each IFD may only be linked once, otherwise this never ends
+            if !known_ifd_offsets.insert(ifd_offset)
+            {
+                return io_error!(Other, format!("IFD at offset {ifd_offset} is linked more than once!"));
+            }
+
             data_cursor.set_position(data_start_position);
             data_cursor.seek(std::io::SeekFrom::Current(ifd_offset as i64))?;
 
-- 
2.43.0


From bf69716bc759c2bdf3341c6658ab307e2101d043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 21/53] fix: reject EXIF data with duplicate SubIFDs instead of
 panicking

---
 src/ifd/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 6d1b1c1..f469a9d 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -445,6 +445,15 @@ ImageFileDirectory
         // At this point we are done with decoding the tags of this IFD and its
         // associated SubIFDs! 
 
+        // There can be only one IFD of each type for every generic IFD
+        if insert_into.iter().any(|ifd|
+            ifd.get_generic_ifd_nr() == generic_ifd_nr &&
+            ifd.get_ifd_type()       == *group
+        )
+        {
+            return io_error!(Other, format!("IFD {group:?} belonging to generic IFD {generic_ifd_nr} exists more than once!"));
+        }
+
         // Put the current IFD into the given, referenced vector
         insert_into.push(ImageFileDirectory { 
             tags:                       tags, 
-- 
2.43.0


From a98caf759de8e763a4a31f1487dc4d3e03f24f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:29 +0000
Subject: [PATCH 22/53] fix: check for available data before allocating memory
 for tag values

---
 src/ifd/mod.rs | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index f469a9d..852129b 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -94,6 +94,27 @@ ImageFileDirectory
         self.tags.sort_by_key(|tag| tag.as_u16());
     }
 
+    /// Reads the given number of bytes, starting at the current position. Does 
+    /// not allocate memory before knowing that there is that much data.
+    fn
+    read_data
+    (
+        data_cursor: &mut Cursor<&Vec<u8>>,
+        byte_count:       u32
+    )
+    -> Result<Vec<u8>, std::io::Error>
+    {
+        let available = (data_cursor.get_ref().len() as u64).saturating_sub(data_cursor.position());
+        if byte_count as u64 > available
+        {
+            return io_error!(UnexpectedEof, format!("Not enough data! Required: {byte_count} Available: {available}"));
+        }
+
+        let mut data = vec![0u8; byte_count as usize];
+        data_cursor.read_exact(&mut data)?;
+        Ok(data)
+    }
+
     /// If everything goes Ok and there is enough data to unpack, this returns
     /// the offset to the next generic IFD that needs to be processed.
     pub(crate) fn
@@ -203,9 +224,7 @@ ImageFileDirectory
                 data_cursor.seek(std::io::SeekFrom::Current(hex_offset as i64))?;
 
                 // Read the raw data
-                let mut raw_data_buffer = vec![0u8; byte_count as usize];
-                data_cursor.read_exact(&mut raw_data_buffer)?;
-                raw_data = raw_data_buffer.to_vec();
+                raw_data = Self::read_data(data_cursor, byte_count)?;
             
                 // Rewind the cursor to the start of the next entry
                 data_cursor.set_position(backup_position);
@@ -382,9 +401,7 @@ ImageFileDirectory
                     data_cursor.set_position(data_begin_position);
                     data_cursor.seek(std::io::SeekFrom::Current(*offset as i64))?;
 
-                    let mut data_buffer = vec![0u8; *byte_count as usize];
-                    data_cursor.read_exact(&mut data_buffer)?;
-                    strip_data.push(data_buffer);
+                    strip_data.push(Self::read_data(data_cursor, *byte_count)?);
                 }
 
                 // Push StripOffset tag to tags vector
@@ -417,12 +434,10 @@ ImageFileDirectory
 
                 if offset.len() == 1 && length.len() == 1
                 {
-                    let mut thumbnail_data = vec![0u8; length[0] as usize];
-
                     // Gather the data at the offset
                     data_cursor.set_position(data_begin_position);
                     data_cursor.seek(std::io::SeekFrom::Current(offset[0] as i64))?;
-                    data_cursor.read_exact(&mut thumbnail_data)?;
+                    let thumbnail_data = Self::read_data(data_cursor, length[0])?;
 
                     // Push ThumbnailOffset tag to tags vector
                     tags.push(ExifTag::ThumbnailOffset(Vec::new(), thumbnail_data));
-- 
2.43.0


From 5fb62e5b6300ef34698a34d330485e5a05e5ac4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:34 +0000
Subject: [PATCH 23/53] fix: reject integer values that do not fit the type of
 their tag

---
 src/exif_tag/decode.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/exif_tag/decode.rs b/src/exif_tag/decode.rs
index bdeb002..a565152 100644
--- a/src/exif_tag/decode.rs
+++ b/src/exif_tag/decode.rs
@@ -52,9 +52,11 @@ decode_tag_with_format_exceptions
 			},
 
 			(ExifTagFormat::INT16U, ExifTagFormat::INT32U) => {
-				// Not sure how to be more cautious in this case...
+				// The value must not be altered, so it has to be in INT16U range
 				let int32u_data = <INT32U as U8conversion<INT32U>>::from_u8_vec(raw_data, endian);
-				let int16u_data = int32u_data.into_iter().map(|x| x as u16).collect::<Vec<u16>>();
+				let int16u_data = int32u_data.into_iter().map(u16::try_from).collect::<Result<Vec<u16>, _>>().map_err(
+					|e| io_error_plain!(InvalidData, format!("Could not decode tag {:?}: {}", raw_tag, e))
+				)?;
 				return raw_tag.set_value_to_int16u_vec(int16u_data).map_err(
 					|e| io_error_plain!(Other, format!("Could not decode tag {:?}: {}", raw_tag, e))
 				);
@@ -71,12 +73,10 @@ decode_tag_with_format_exceptions
 			// See issue #74
 			(ExifTagFormat::INT8U, ExifTagFormat::INT16U) => {
 				let int16u_data = <INT16U as U8conversion<INT16U>>::from_u8_vec(raw_data, endian);
-				let int8u_data  = int16u_data.clone().into_iter().map(|x| x as u8).collect::<Vec<u8>>();
-				for (element_u16, element_u8) in int16u_data.iter().zip(int8u_data.iter())
-				{
-					// Assert that the int16u data is within int8u range
-					assert_eq!(*element_u16, *element_u8 as u16);
-				}
+				// The int16u data must be within int8u range
+				let int8u_data  = int16u_data.into_iter().map(u8::try_from).collect::<Result<Vec<u8>, _>>().map_err(
+					|e| io_error_plain!(InvalidData, format!("Could not decode tag {:?}: {}", raw_tag, e))
+				)?;
 				return raw_tag.set_value_to_int8u_vec(int8u_data).map_err(
 					|e| io_error_plain!(Other, format!("Could not decode tag {:?}: {}", raw_tag, e))
 				);
-- 
2.43.0


From 738f4b994043fcc47426a934daccffe33613707d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 24/53] fix: keep the value of unsigned rationals stored for
 signed tags

---
 src/exif_tag/decode.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/exif_tag/decode.rs b/src/exif_tag/decode.rs
index a565152..d203a9a 100644
--- a/src/exif_tag/decode.rs
+++ b/src/exif_tag/decode.rs
@@ -123,9 +123,12 @@ decode_tag_with_format_exceptions
 			// See issue #21
 			(ExifTagFormat::RATIONAL64S, ExifTagFormat::RATIONAL64U) => {
 				let uR64_data = <RATIONAL64U as U8conversion<RATIONAL64U>>::from_u8_vec(raw_data, endian);
-				let iR64_data = uR64_data
-					.into_iter().map(|x| x.into()).collect::<Vec<f64>>()
-					.into_iter().map(|x| x.into()).collect::<Vec<iR64>>();
+				let iR64_data = uR64_data.into_iter().map(|x| Ok(iR64 { 
+					nominator:   i32::try_from(x.nominator)?, 
+					denominator: i32::try_from(x.denominator)?
+				})).collect::<Result<Vec<iR64>, std::num::TryFromIntError>>().map_err(
+					|e| io_error_plain!(InvalidData, format!("Could not decode tag {:?}: {}", raw_tag, e))
+				)?;
 
 				return raw_tag.set_value_to_iR64_vec(iR64_data).map_err(
 					|e| io_error_plain!(Other, format!("Could not decode tag {:?}: {}", raw_tag, e))
-- 
2.43.0


From 1dc8b75475997b57ff63cf8896a7a9a7b818c595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:36 +0000
Subject: [PATCH 25/53] fix: do not panic for an empty GPSAltitudeRef string

---
 src/exif_tag/decode.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/exif_tag/decode.rs b/src/exif_tag/decode.rs
index d203a9a..5ad2ca0 100644
--- a/src/exif_tag/decode.rs
+++ b/src/exif_tag/decode.rs
@@ -96,11 +96,10 @@ decode_tag_with_format_exceptions
 					// if it is 0x01 or 0x31 ("1") we set it to 1, and
 					// otherwise we panic and tell the user to open a ticket.
 
-					let first_char = raw_data[0];
-					let int8u_data = match first_char
+					let int8u_data = match raw_data.first()
 					{
-						0x00 | 0x30 => vec![0u8],
-						0x01 | 0x31 => vec![1u8],
+						Some(0x00 | 0x30) => vec![0u8],
+						Some(0x01 | 0x31) => vec![1u8],
 						_ => io_error!(InvalidData, "Problem while decoding GPSAltitudeRef. Please open a new issue for little_exif!")?
 					};
 
-- 
2.43.0


From 846fe7a4cbd5fb6492dba872c14b05bc5dad8b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:48 +0000
Subject: [PATCH 26/53] fix: keep the numbers of generic IFDs when lower ones
 do not exist

---
 src/metadata/mod.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 932bd3e..1328264 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -191,9 +191,12 @@ Metadata
 
             assert!(filter_result.len() <= 1);
 
-            let Some(last_ifd) = filter_result.last() else { continue; };
+            // The position of a generic IFD in the chain is its number, so if
+            // there is none for this number an empty one has to take its place
+            let empty_ifd = ImageFileDirectory::new_with_tags(Vec::new(), ExifTagGroup::GENERIC, n);
+            let ifd       = filter_result.last().copied().unwrap_or(&empty_ifd);
 
-            let (next_link_section, link_vec) = last_ifd.encode_ifd(
+            let (next_link_section, link_vec) = ifd.encode_ifd(
                 self, 
                 &mut ifds_with_offset_info_only, 
                 &mut encode_vec, 
@@ -210,13 +213,6 @@ Metadata
             index_of_previous_ifds_link_section = Some(next_link_section);
         }
 
-        // The header refers to IFD0, so there has to be one even if there are
-        // no tags at all: No entries and no link to another IFD
-        if encode_vec.len() == self.endian.header().len()
-        {
-            encode_vec.extend([0u8; 6]);
-        }
-
         Ok(encode_vec)
     }
 
-- 
2.43.0


From 2da5ec72da0b596ac5e9200bdbd1e5baf611b7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 27/53] fix: check for available data before allocating memory
 for WebP chunks

---
 src/webp/file.rs | 13 +++++++------
 src/webp/vec.rs  | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index a7753ea..758730a 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -67,7 +67,7 @@ get_next_chunk
 {
     // Read the start of the chunk
     let mut chunk_start = [0u8; 8];
-    let mut bytes_read = file.read(&mut chunk_start)?;
+    let bytes_read = file.read(&mut chunk_start)?;
 
     // Check that indeed 8 bytes were read
     if bytes_read != 8
@@ -77,15 +77,16 @@ get_next_chunk
 
     // Construct name of chunk and its length
     let chunk_name = String::from_utf8(chunk_start[0..4].to_vec());
-    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)?;
+    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)? as u64;
 
     // Account for the possible padding byte
     chunk_length += chunk_length % 2;
 
-    // Read RIFF chunk data
-    let mut chunk_data_buffer = vec![0u8; chunk_length as usize];
-    bytes_read = file.read(&mut chunk_data_buffer)?;
-    if bytes_read != chunk_length as usize
+    // Read RIFF chunk data. As the length may be invalid, only as much memory
+    // gets allocated as there is data available
+    let mut chunk_data_buffer = Vec::new();
+    let bytes_read = file.take(chunk_length).read_to_end(&mut chunk_data_buffer)?;
+    if bytes_read as u64 != chunk_length
     {
         return io_error!(
             Other, 
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 5dc3960..cf95f51 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -57,7 +57,7 @@ get_next_chunk
     // Read the start of the chunk
     let mut chunk_start = [0u8; 8];
 
-    let mut bytes_read = cursor.read(&mut chunk_start)?;
+    let bytes_read = cursor.read(&mut chunk_start)?;
 
     // Check that indeed 8 bytes were read
     if bytes_read != 8
@@ -67,15 +67,16 @@ get_next_chunk
 
     // Construct name of chunk and its length
     let chunk_name = String::from_utf8(chunk_start[0..4].to_vec());
-    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)?;
+    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)? as u64;
 
     // Account for the possible padding byte
     chunk_length += chunk_length % 2;
 
-    // Read RIFF chunk data
-    let mut chunk_data_buffer = vec![0u8; chunk_length as usize];
-    bytes_read = cursor.read(&mut chunk_data_buffer)?;
-    if bytes_read != chunk_length as usize
+    // Read RIFF chunk data. As the length may be invalid, only as much memory
+    // gets allocated as there is data available
+    let mut chunk_data_buffer = Vec::new();
+    let bytes_read = cursor.take(chunk_length).read_to_end(&mut chunk_data_buffer)?;
+    if bytes_read as u64 != chunk_length
     {
         return io_error!(
             Other, 
-- 
2.43.0


From 81a2893affad00b034f5eb60405e692772700ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:24 +0000
Subject: [PATCH 28/53] fix: report malformed WebP images instead of panicking

---
 src/webp/file.rs | 18 +++++++++++-------
 src/webp/mod.rs  | 10 ++++++++++
 src/webp/vec.rs  | 18 +++++++++++-------
 3 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 758730a..b6c71d4 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -380,14 +380,15 @@ update_file_size_information
     let old_file_size = from_u8_vec_res_macro!(u32, &file_size_buffer, &Endian::Little)?;
 
     // ...adding the delta byte count (and performing some checks)...
-    if delta < 0
+    let Ok(new_file_size) = u32::try_from(old_file_size as i64 + delta as i64) else
     {
-        assert!(old_file_size as i32 > delta);
-    }
-    let new_file_size = (old_file_size as i32 + delta) as u32;
+        return io_error!(InvalidData, "WebP file size is out of range!");
+    };
 
-    assert!(old_file_size % 2 == 0);
-    assert!(new_file_size % 2 == 0);
+    if old_file_size % 2 != 0 || new_file_size % 2 != 0
+    {
+        return io_error!(InvalidData, "WebP file size is not even!");
+    }
 
     // ...and writing back to file...
     file.seek(SeekFrom::Start(4))?;
@@ -477,7 +478,10 @@ get_dimension_info_from_vp8l_chunk
     // (although we only need 28 bits)
     // Starting at byte 1 instead of 0 due to the 0x2F byte
     // See: https://developers.google.com/speed/webp/docs/webp_lossless_bitstream_specification#3_riff_header
-    let width_height_info_buffer = payload[1..5].to_vec();
+    let Some(width_height_info_buffer) = payload.get(1..5).map(|bytes| bytes.to_vec()) else
+    {
+        return io_error!(InvalidData, "VP8L chunk is too short!");
+    };
     
     // Convert to a single u32 number for bit-mask operations
     let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
diff --git a/src/webp/mod.rs b/src/webp/mod.rs
index 287a269..bd7534d 100644
--- a/src/webp/mod.rs
+++ b/src/webp/mod.rs
@@ -155,6 +155,11 @@ get_dimension_info_from_vp8_chunk
     // VP8 Data Format https://datatracker.ietf.org/doc/html/rfc6386#section-9.1
     // Parsing function function vp8_parse_frame_header: https://datatracker.ietf.org/doc/html/rfc6386#section-20.4
 
+    if payload.len() < 10
+    {
+        return io_error!(InvalidData, "VP8 chunk is too short!");
+    }
+
     let header_magic = payload[3..=5].to_vec();
     if 
         header_magic.len() != 3 || 
@@ -174,5 +179,10 @@ get_dimension_info_from_vp8_chunk
     let width  = width_info  & bitmask_14;
     let height = height_info & bitmask_14;
 
+    if width == 0 || height == 0
+    {
+        return io_error!(InvalidData, "VP8 chunk has an empty frame!");
+    }
+
     return Ok((width as u32 -1, height as u32 -1));
 }
\ No newline at end of file
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index cf95f51..19e4440 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -359,14 +359,15 @@ update_file_size_information
     let old_file_size = from_u8_vec_res_macro!(u32, &file_size_buffer, &Endian::Little)?;
 
     // ...adding the delta byte count (and performing some checks)...
-    if delta < 0
+    let Ok(new_file_size) = u32::try_from(old_file_size as i64 + delta as i64) else
     {
-        assert!(old_file_size as i32 > delta);
-    }
-    let new_file_size = (old_file_size as i32 + delta) as u32;
+        return io_error!(InvalidData, "WebP file size is out of range!");
+    };
 
-    assert!(old_file_size % 2 == 0);
-    assert!(new_file_size % 2 == 0);
+    if old_file_size % 2 != 0 || new_file_size % 2 != 0
+    {
+        return io_error!(InvalidData, "WebP file size is not even!");
+    }
 
     // ...and writing back to file...
     cursor.set_position(4);
@@ -446,7 +447,10 @@ get_dimension_info_from_vp8l_chunk
     // (although we only need 28 bits)
     // Starting at byte 1 instead of 0 due to the 0x2F byte
     // See: https://developers.google.com/speed/webp/docs/webp_lossless_bitstream_specification#3_riff_header
-    let width_height_info_buffer = payload[1..5].to_vec();
+    let Some(width_height_info_buffer) = payload.get(1..5).map(|bytes| bytes.to_vec()) else
+    {
+        return io_error!(InvalidData, "VP8L chunk is too short!");
+    };
     
     // Convert to a single u32 number for bit-mask operations
     let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
-- 
2.43.0


From 105ba4d5f9178d25a5d23633d2010d0cef2982ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:02 +0000
Subject: [PATCH 29/53] fix: check for available data before allocating memory
 for HEIF boxes

---
 src/heif/boxes/iso.rs           |  8 ++-----
 src/heif/boxes/item_info.rs     |  1 -
 src/heif/boxes/item_location.rs |  6 +++++
 src/heif/boxes/meta.rs          |  9 ++------
 src/heif/container.rs           | 41 +++++++++++++++++++++++++--------
 5 files changed, 41 insertions(+), 24 deletions(-)

diff --git a/src/heif/boxes/iso.rs b/src/heif/boxes/iso.rs
index cb594e8..a77244b 100644
--- a/src/heif/boxes/iso.rs
+++ b/src/heif/boxes/iso.rs
@@ -55,13 +55,9 @@ IsoBox
             ));
         };
 
+        // Don't reserve memory based on the box size as it may be way larger
+        // than the data that is actually available
         let mut buffer: Vec<u8> = Vec::new();
-
-        // This may cause an out of memory error, but won't panic like vec![]
-        buffer.try_reserve_exact(data_left_to_read as usize)?;
-
-        // Can't use read_exact here because the name buffer we read into is
-        // still size 0 (only has reserved capacity!)
         cursor.take(data_left_to_read as u64).read_to_end(&mut buffer)?;
 
         return Ok(IsoBox {
diff --git a/src/heif/boxes/item_info.rs b/src/heif/boxes/item_info.rs
index 63ea6c5..478fdda 100644
--- a/src/heif/boxes/item_info.rs
+++ b/src/heif/boxes/item_info.rs
@@ -94,7 +94,6 @@ ItemInfoEntryBox
         let data_left_to_read = header.get_box_size() - data_read_so_far;
 
         let mut additional_data: Vec<u8> = Vec::new();
-        additional_data.try_reserve_exact(data_left_to_read as usize)?;
         cursor.take(data_left_to_read as u64).read_to_end(&mut additional_data)?;
 
         log::trace!("Successfully read in ItemInfoEntryBox with ID: {item_id}, Name: {item_name}");
diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index b49425a..fc53e82 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -195,6 +195,12 @@ ItemLocationEntry
 
         let extent_count = read_be_u16(cursor)?;
 
+        // Extents that don't occupy any data can't be told apart
+        if extent_count > 1 && offset_size == 0 && length_size == 0 && index_size == 0
+        {
+            return io_error!(InvalidData, "Multiple extents without offset and length!");
+        }
+
         let mut extents = Vec::new();
 
         for _ in 0..extent_count
diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 1617bc6..64139bc 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -187,7 +187,6 @@ MetaBox
         // Read in the remaining bytes for this box
         let     remaining_bytes = header.get_box_size() - header.get_header_size();
         let mut meta_box_bytes: Vec<u8> = Vec::new();
-        meta_box_bytes.try_reserve_exact(remaining_bytes as usize)?;
         cursor.take(remaining_bytes as u64).read_to_end(&mut meta_box_bytes)?;
 
         // Construct local cursor for these bytes
@@ -285,13 +284,9 @@ HandlerBox
             - 12                              // reserved
             ;
 
+        // Don't reserve memory based on the box size as it may be way larger
+        // than the data that is actually available
         let mut name: Vec<u8> = Vec::new();
-
-        // This may cause an out of memory error, but won't panic like vec![]
-        name.try_reserve_exact(number_of_bytes_that_form_the_name as usize)?;
-
-        // Can't use read_exact here because the name buffer we read into is
-        // still size 0 (only has reserved capacity!)
         cursor
             .take(number_of_bytes_that_form_the_name as u64)
             .read_to_end(&mut name)?;
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 5f17e97..c62b151 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -22,6 +22,25 @@ use super::boxes::GenericIsoBox;
 use super::boxes::item_info::ItemInfoBox;
 use super::boxes::item_location::ItemLocationBox;
 
+/// Reads exactly the given number of bytes. Does not allocate memory based on
+/// that number as it may exceed the amount of data that is available.
+fn
+read_exact_bytes
+<T: Seek + Read>
+(
+    cursor: &mut T,
+    length: u64
+)
+-> Result<Vec<u8>, std::io::Error>
+{
+    let mut buffer = Vec::new();
+    if cursor.take(length).read_to_end(&mut buffer)? as u64 != length
+    {
+        return io_error!(UnexpectedEof, "Could not read the entire EXIF data");
+    }
+    return Ok(buffer);
+}
+
 pub struct
 HeifContainer
 {
@@ -227,12 +246,11 @@ HeifContainer
         }
 
         // Read in the remaining bytes
-        let mut exif_buffer = vec![0u8; 
-            length as usize 
-            - 4                       // the 4 bytes that store the offset
-            - exif_tiff_header_offset // the actual offset
-        ];
-        cursor.read_exact(&mut exif_buffer)?;
+        let remaining_length = length
+            - 4                              // the 4 bytes that store the offset
+            - exif_tiff_header_offset as u64 // the actual offset
+        ;
+        let mut exif_buffer = read_exact_bytes(cursor, remaining_length)?;
 
         // Stick a EXIF_HEADER in the front
         let mut full_exif_data = EXIF_HEADER.to_vec();
@@ -273,16 +291,19 @@ HeifContainer
             cursor.seek(std::io::SeekFrom::Start(start))?;
 
             // Read in all of this area
-            let mut exif_buffer = vec![0u8; length as usize];
-            cursor.read_exact(&mut exif_buffer)?;
+            let exif_buffer = read_exact_bytes(cursor, length)?;
 
             // Decode the first 4 bytes, which tells us where to cut off the old 
             // data and replace with the new one
-            let mut local_cursor            = Cursor::new(exif_buffer[0..4].to_vec());
+            let mut local_cursor            = Cursor::new(&exif_buffer);
             let     exif_tiff_header_offset = read_be_u32(&mut local_cursor)?;
 
             // Cut off data, starting at the old TIFF header and replace with new
-            new_exif_buffer = exif_buffer[0..exif_tiff_header_offset as usize + 4].to_vec();
+            new_exif_buffer = match exif_buffer.get(0..(exif_tiff_header_offset as usize).saturating_add(4))
+            {
+                Some(exif_header) => exif_header.to_vec(),
+                None              => return io_error!(InvalidData, "TIFF header offset exceeds the EXIF data")
+            };
         }
         else
         {
-- 
2.43.0


From af944c078448c7e0b58acc9997e4cff2da37333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:49 +0000
Subject: [PATCH 30/53] fix: report malformed HEIF item tables instead of
 panicking

---
 src/heif/boxes/item_location.rs  | 19 +++++++++++++++++++
 src/heif/boxes/item_reference.rs |  4 ++--
 src/heif/boxes/meta.rs           | 13 ++++++++-----
 src/heif/container.rs            |  7 +++++--
 4 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index fc53e82..6a32f0a 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -223,6 +223,25 @@ ItemLocationEntry
             extents
         };
 
+        // Other values are not defined, see ISO/IEC 14496-12:2015 § 8.11.3.3
+        if entry.reserved_and_construction_method & 0x0f > 2
+        {
+            return io_error!(InvalidData, "Unknown item construction method!");
+        }
+
+        // Check that all extents are located at positions that can be handled
+        for extent in &entry.extents
+        {
+            let end_of_extent = base_offset
+                .checked_add(extent.extent_offset)
+                .and_then(|start| start.checked_add(extent.extent_length));
+
+            if end_of_extent.map_or(true, |end| end > i64::MAX as u64)
+            {
+                return io_error!(InvalidData, "Location of item is out of range!");
+            }
+        }
+
         log::trace!("Read in ItemLocationEntry: {:?}", entry);
 
         return Ok(entry);
diff --git a/src/heif/boxes/item_reference.rs b/src/heif/boxes/item_reference.rs
index 3763c2f..9386da9 100644
--- a/src/heif/boxes/item_reference.rs
+++ b/src/heif/boxes/item_reference.rs
@@ -128,7 +128,7 @@ ItemReferenceBox
     )
     -> Result<Self, std::io::Error>
     {
-        let mut bytes_read = 0;
+        let mut bytes_read = 0u64;
 
         let mut references = Vec::new();
 
@@ -144,7 +144,7 @@ ItemReferenceBox
                 &header
             )?;
 
-            bytes_read += next_reference.get_header().get_box_size();
+            bytes_read = bytes_read.saturating_add(next_reference.get_header().get_box_size());
 
             references.push(next_reference);
         }
diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 64139bc..59193a7 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -128,24 +128,27 @@ MetaBox
     (
         &mut self
     )
-    -> u64
+    -> Result<u64, std::io::Error>
     {
         if self.get_item_reference_box().is_some()
         {
-            return 0;
+            return Ok(0);
         }
 
         let new_iref_box      = ItemReferenceBox::new();
         let new_iref_box_size = new_iref_box.get_header().get_box_size();
 
-        let index = self.other_boxes
+        let Some(index) = self.other_boxes
             .iter()
             .position(|x| x.get_header().get_box_type() == BoxType::iinf)
-            .expect("Could not find iinf box to insert iref before");
+        else
+        {
+            return io_error!(NotFound, "Could not find iinf box to insert iref before");
+        };
          
         self.other_boxes.insert(index, Box::new(new_iref_box));
 
-        return new_iref_box_size;
+        return Ok(new_iref_box_size);
     }
 }
 
diff --git a/src/heif/container.rs b/src/heif/container.rs
index c62b151..49dd88c 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -383,7 +383,7 @@ HeifContainer
 
             // If there is no iref box yet, create one so we can find one,
             // and get the size delta of the new box for extents
-            let mut iref_size_delta = self.get_meta_box_mut()?.create_new_item_reference_box_if_none_exists_yet();
+            let mut iref_size_delta = self.get_meta_box_mut()?.create_new_item_reference_box_if_none_exists_yet()?;
 
             // Acquire the item location, the item information and the item 
             // reference boxes that are inside the meta box. For some reason, 
@@ -491,7 +491,10 @@ HeifContainer
                     item.base_offset + extent.extent_offset == old_exif_pos
                 })
             {
-                assert!(item.extents.len() == 1, "Expect to have exactly one extent info for EXIF!");
+                if item.extents.len() != 1
+                {
+                    return io_error!(Other, "Expect to have exactly one extent info for EXIF!");
+                }
 
                 // In case of the EXIF extent information we need to update
                 // the length information, not the offset!
-- 
2.43.0


From 35d3c4abbf1160ac0c41949de60b1ece32d2f980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 31/53] fix: read the 64 bit size of HEIF boxes before version
 and flags

---
 src/heif/box_header.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index 3ea282c..305b7b0 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -109,15 +109,6 @@ BoxHeader
             flags:       None,
         };
 
-        if box_type.extends_fullbox()
-        {
-            header.version = Some(read_1_bytes(cursor)?[0]);
-            header.flags   = Some(read_3_bytes(cursor)?);
-
-            // Adjust header size information
-            header.header_size += 4;
-        }
-
         // Uses largesize box size
         if header.box_size == 1
         { 
@@ -144,6 +135,15 @@ BoxHeader
             header.header_size += 8;
         }
 
+        if box_type.extends_fullbox()
+        {
+            header.version = Some(read_1_bytes(cursor)?[0]);
+            header.flags   = Some(read_3_bytes(cursor)?);
+
+            // Adjust header size information
+            header.header_size += 4;
+        }
+
         if let BoxType::uuid { usertype: _ } = header.box_type
         {
             let new_usertype = read_16_bytes(cursor)?;
@@ -253,6 +253,12 @@ BoxHeader
         // Serialize box type - Part 1
         serialized.extend(self.box_type.to_4_bytes());
 
+        // Serialize box size - Part 2
+        if self.largesize
+        {
+            serialized.extend(to_u8_vec_macro!(u64, &(self.box_size as u64), &Endian::Big).iter());
+        }
+
         // Serialize version and flags (if present)
         if self.box_type.extends_fullbox()
         {
@@ -263,12 +269,6 @@ BoxHeader
             }
         }
 
-        // Serialize box size - Part 2
-        if self.largesize
-        {
-            serialized.extend(to_u8_vec_macro!(u64, &(self.box_size as u64), &Endian::Big).iter());
-        }
-
         // Serialize box type - Part 2
         if let BoxType::uuid { usertype } = self.box_type
         {
-- 
2.43.0


From f15f61feac33d8b25ee011a245329dd8d69463ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:13 +0000
Subject: [PATCH 32/53] fix: keep HEIF box types that are not valid UTF-8

---
 src/heif/box_header.rs | 4 ++--
 src/heif/box_type.rs   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index 305b7b0..09af87a 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -63,7 +63,7 @@ BoxHeader
         {
             box_size:    8,
             largesize:   false,
-            box_type:    BoxType::unknown { box_type: "tobi".to_owned() },
+            box_type:    BoxType::unknown { box_type: *b"tobi" },
             header_size: 8,
             version:     None,
             flags:       None,
@@ -79,7 +79,7 @@ BoxHeader
         {
             box_size:    12,
             largesize:   false,
-            box_type:    BoxType::unknown { box_type: "tobi".to_owned() },
+            box_type:    BoxType::unknown { box_type: *b"tobi" },
             header_size: 12,
             version:     Some(0),
             flags:       Some([0, 0, 0]),
diff --git a/src/heif/box_type.rs b/src/heif/box_type.rs
index 951a1f4..7296d2b 100644
--- a/src/heif/box_type.rs
+++ b/src/heif/box_type.rs
@@ -92,7 +92,7 @@ BoxType
     hmhd,
     sthd,
     uuid    { usertype: [u8; 16] },
-    unknown { box_type: String }
+    unknown { box_type: [u8; 4] }
 }
 
 impl
@@ -194,7 +194,7 @@ BoxType
             "hmhd" => BoxType::hmhd,
             "sthd" => BoxType::sthd,
             "uuid" => BoxType::uuid { usertype: [0u8; 16] },
-            _      => BoxType::unknown { box_type: String::from(box_type_str) }
+            _      => BoxType::unknown { box_type: bytes }
         }
     }
 
@@ -293,7 +293,7 @@ BoxType
             BoxType::hmhd => "hmhd",
             BoxType::sthd => "sthd",
             BoxType::uuid { usertype: _ } => "uuid",
-            BoxType::unknown { box_type } => box_type
+            BoxType::unknown { box_type } => return box_type.to_vec()
         }.as_bytes().to_vec()
     }
 
-- 
2.43.0


From 3259e7478228c45961ce2cc734754a069a4d9080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:26 +0000
Subject: [PATCH 33/53] fix: recognise HEIF EXIF items with a name or a 32 bit
 ID

---
 src/heif/boxes/item_info.rs     | 55 +++++++++++++++++++++++++++++----
 src/heif/boxes/item_location.rs |  4 +--
 src/heif/container.rs           |  6 ++--
 3 files changed, 54 insertions(+), 11 deletions(-)

diff --git a/src/heif/boxes/item_info.rs b/src/heif/boxes/item_info.rs
index 478fdda..afaf722 100644
--- a/src/heif/boxes/item_info.rs
+++ b/src/heif/boxes/item_info.rs
@@ -13,6 +13,7 @@ use crate::util::read_be_u32;
 use crate::util::read_null_terminated_string;
 
 use crate::heif::box_header::BoxHeader;
+use crate::heif::box_type::BoxType;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
 
@@ -34,7 +35,9 @@ pub struct
 ItemInfoEntryBox
 {
     pub(self)  header:                BoxHeader,
-    pub(crate) item_id:               u16,
+    pub(crate) item_id:               u32,
+        // only if version == 3, otherwise this is u16
+
     pub(crate) item_protection_index: u16,
     pub(crate) item_name:             String,
     pub(crate) additional_data:       Vec<u8>,
@@ -69,13 +72,28 @@ ItemInfoEntryBox
     )
     -> Result<Self, std::io::Error>
     {
-        let item_id               = read_be_u16(cursor)?;
+        if header.get_box_type() != BoxType::infe
+        {
+            return io_error!(InvalidData, "Expected an item info entry box");
+        }
+
+        // See: ISO/IEC 14496-12:2015, § 8.11.6.2
+        let item_id_size = if header.get_version() == 3 { 4 } else { 2 };
+        let item_id      = if item_id_size == 4
+        {
+            read_be_u32(cursor)?
+        }
+        else
+        {
+            read_be_u16(cursor)? as u32
+        };
+
         let item_protection_index = read_be_u16(cursor)?;
         let item_name             = read_null_terminated_string(cursor)?;
 
         // Determine how much data is left for this entry
         let data_read_so_far = header.get_header_size() 
-            + 2                           // item_id
+            + item_id_size                // item_id
             + 2                           // item_protection_index
             + item_name.len() as u64 + 1; // string len + null terminator
 
@@ -107,6 +125,24 @@ ItemInfoEntryBox
         });
     }
 
+    /// Checks whether this entry describes an EXIF item. Starting with 
+    /// version 2 the name gets preceded by the 4 characters of the item type
+    fn
+    is_exif_item
+    (
+        &self
+    )
+    -> bool
+    {
+        return if self.header.get_version() >= 2
+        {
+            self.item_name.starts_with("Exif")
+        }
+        else
+        {
+            self.item_name == "Exif"
+        };
+    }
 }
 
 impl
@@ -141,7 +177,7 @@ ItemInfoBox
     -> Option<&ItemInfoEntryBox>
     {
         return self.items.iter()
-            .find(|item| item.item_name == "Exif")
+            .find(|item| item.is_exif_item())
     }
 
     /// Creates a new item in this item information box and returns by how many
@@ -158,7 +194,7 @@ ItemInfoBox
         self.items.push(ItemInfoEntryBox 
             { 
                 header:                BoxHeader::new_exif_info_entry_box_header(), 
-                item_id:               iloc_id as u16, 
+                item_id:               iloc_id, 
                 item_protection_index: 0, 
                 item_name:             name.to_string(), 
                 additional_data:       Vec::new()
@@ -235,7 +271,14 @@ ItemInfoEntryBox
     {
         let mut serialized = self.header.serialize();
         
-        serialized.extend(to_u8_vec_macro!(u16, &self.item_id,               &Endian::Big).iter());
+        if self.header.get_version() == 3
+        {
+            serialized.extend(to_u8_vec_macro!(u32, &self.item_id,           &Endian::Big).iter());
+        }
+        else
+        {
+            serialized.extend(to_u8_vec_macro!(u16, &(self.item_id as u16),  &Endian::Big).iter());
+        }
         serialized.extend(to_u8_vec_macro!(u16, &self.item_protection_index, &Endian::Big).iter());
         serialized.extend(self.item_name.bytes());
         serialized.push(0x00); // null terminator for item name string
diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index 6a32f0a..74bd272 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -377,12 +377,12 @@ ItemLocationBox
     get_item_location_entry
     (
         &self,
-        item_id: u16
+        item_id: u32
     )
     -> Result<&ItemLocationEntry, std::io::Error>
     {
         self.items.iter()
-            .find(|item| item.item_id == item_id as u32)
+            .find(|item| item.item_id == item_id)
             .ok_or(
                 io_error_plain!(
                     Other, 
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 49dd88c..77b3432 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -156,7 +156,7 @@ HeifContainer
     (
         &self
     )
-    -> Result<u16, std::io::Error>
+    -> Result<u32, std::io::Error>
     {
         if let Ok(meta) = self.get_meta_box() 
         {
@@ -172,7 +172,7 @@ HeifContainer
     get_exif_data_pos_and_len
     (
         &self,
-        exif_item_id: u16,
+        exif_item_id: u32,
     )
     -> Result<(u64, u64), std::io::Error>
     {
@@ -462,7 +462,7 @@ HeifContainer
             // iloc item so that the exif area currently has a length of zero
 
             // Now we have a valid exif area with an iloc ID!
-            id = Ok(new_iloc_id as u16);
+            id = Ok(new_iloc_id);
         }
 
         // Get position and length of current exif area
-- 
2.43.0


From 531a81be543aa939030268f97d631b18acfdeea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:29 +0000
Subject: [PATCH 34/53] fix: keep data behind the last HEIF box that can be
 parsed

---
 src/heif/container.rs | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 77b3432..3539ec0 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -44,7 +44,10 @@ read_exact_bytes
 pub struct
 HeifContainer
 {
-    boxes: Vec<Box<dyn GenericIsoBox>>
+    boxes:    Vec<Box<dyn GenericIsoBox>>,
+
+    // Data at the end of the file that can't be interpreted as boxes
+    trailing: Vec<u8>,
 }
 
 // General structure of ISO container
@@ -101,14 +104,27 @@ HeifContainer
     )
     -> Result<Self, std::io::Error>
     {
-        let mut boxes = Vec::new();
+        let mut boxes    = Vec::new();
+        let mut trailing = Vec::new();
 
-        while let Ok(next_box) = read_next_box(cursor)
+        loop
         {
-            boxes.push(next_box);
+            let start_of_box = cursor.stream_position()?;
+
+            if let Ok(next_box) = read_next_box(cursor)
+            {
+                boxes.push(next_box);
+                continue;
+            }
+
+            // Keep the remaining data so that it does not get lost when 
+            // writing the boxes again
+            cursor.seek(std::io::SeekFrom::Start(start_of_box))?;
+            cursor.read_to_end(&mut trailing)?;
+            break;
         }
 
-        return Ok(Self { boxes })
+        return Ok(Self { boxes, trailing })
     }
 
     fn
@@ -623,6 +639,8 @@ HeifContainer
             written_bytes += serialized.len();
         }
 
+        cursor.get_mut().extend(&self.trailing);
+
         return Ok(());
     }
 
-- 
2.43.0


From db3e9b599c4c4be97b47ed17a38cc0086eab3754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:32 +0000
Subject: [PATCH 35/53] fix: clear HEIF images without or with malformed EXIF
 data and keep the result readable

---
 src/heif/container.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 3539ec0..c8f9cad 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -331,10 +331,7 @@ HeifContainer
 
         // Append the encoded metadata to the old/newly created TIFF header and
         // compute the delta in length
-        if !metadata.get_ifds().is_empty()
-        {
-            new_exif_buffer.append(&mut metadata.encode()?);
-        }
+        new_exif_buffer.append(&mut metadata.encode()?);
         let delta = new_exif_buffer.len() as i64 - length as i64;
 
         return Ok((
@@ -665,13 +662,20 @@ HeifContainer
         // Note: It is up for debate whether keeping this information is wanted
         // or not/this should write a truly empty exif area
 
+        // Nothing to clear if there is no EXIF item
+        if self.get_meta_box()?.get_item_info_box()?.get_exif_item().is_none()
+        {
+            return Ok(());
+        }
+
         // Create cursor
         let mut cursor = Cursor::new(file_buffer);
 
-        // Read original metadata
+        // Read original metadata. In case it can't be decoded there is nothing
+        // to keep
         let orig_metadata = Metadata::general_decoding_wrapper(
             self.get_exif_data(&mut cursor)
-        )?;
+        ).unwrap_or_else(|_| Metadata::new());
 
         // Construct new metadata that only contains the above tags
         let mut new_metadata = Metadata::new();
-- 
2.43.0


From 3045623c296e29e80de59d99215ef837a2951a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:19 +0000
Subject: [PATCH 36/53] fix: update HEIF item locations according to where
 their data is stored

---
 src/heif/box_header.rs          |  20 +++
 src/heif/boxes/iso.rs           |  10 ++
 src/heif/boxes/item_location.rs | 125 ++++++++++++--
 src/heif/container.rs           | 284 ++++++++++++++------------------
 4 files changed, 260 insertions(+), 179 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index 09af87a..a51c4ac 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -196,6 +196,26 @@ BoxHeader
         self.box_size = new_size;
     }
 
+    pub(super) fn
+    change_box_size
+    (
+        &mut self,
+        delta: i64
+    )
+    -> Result<(), std::io::Error>
+    {
+        let new_size = self.box_size as i128 + delta as i128;
+        let max_size = if self.largesize { i64::MAX as i128 } else { u32::MAX as i128 };
+
+        if new_size < self.header_size as i128 || new_size > max_size
+        {
+            return io_error!(InvalidData, "New size of box is out of range");
+        }
+
+        self.box_size = new_size as u64;
+        return Ok(());
+    }
+
     pub(super) fn
     set_box_type_via_string
     (
diff --git a/src/heif/boxes/iso.rs b/src/heif/boxes/iso.rs
index a77244b..42db2d1 100644
--- a/src/heif/boxes/iso.rs
+++ b/src/heif/boxes/iso.rs
@@ -20,6 +20,16 @@ IsoBox
 impl
 IsoBox
 {
+    pub(crate) fn
+    new_empty
+    (
+        header: BoxHeader
+    )
+    -> Self
+    {
+        return IsoBox { header, data: Vec::new() };
+    }
+
     fn
     construct_from_cursor_unboxed
     <T: Seek + Read>
diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index 74bd272..8a1c4da 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -442,27 +442,88 @@ ItemLocationBox
         );
     }
 
+    /// Sets a new length for the EXIF item and all other items that share its
+    /// data, i.e. consist of exactly the same area
     pub(crate) fn
-    add_to_extents
+    set_length
     (
         &mut self,
-        value: i64
+        exif_item_id: u32,
+        new_length:   u64
     )
+    {
+        let area = |item: &ItemLocationEntry| match item.extents.as_slice()
+        {
+            [extent] if item.get_construction_method() == ItemConstructionMethod::FILE && item.data_reference_index == 0
+                => Some((item.base_offset + extent.extent_offset, extent.extent_length)),
+            _
+                => None,
+        };
+
+        let exif_area = self.items.iter().find(|item| item.item_id == exif_item_id).and_then(area);
+
+        for item in &mut self.items
+        {
+            let is_shared = area(item).map_or(false, |(_, length)| length > 0) && area(item) == exif_area;
+            if item.item_id == exif_item_id || is_shared
+            {
+                for extent in &mut item.extents
+                {
+                    extent.extent_length = new_length;
+                }
+            }
+        }
+    }
+
+    /// Checks that all locations can be stored in their fields
+    pub(crate) fn
+    check_locations
+    (
+        &self
+    )
+    -> Result<(), std::io::Error>
+    {
+        let fits = |value: u64, size: u8| size >= 8 || value >> (8 * size) == 0;
+
+        for item in &self.items
+        {
+            if !fits(item.base_offset, self.base_offset_size)
+            || item.extents.iter().any(|extent| 
+                !fits(extent.extent_offset, self.offset_size) ||
+                !fits(extent.extent_length, self.length_size)
+            )
+            {
+                return io_error!(Unsupported, "Location of item does not fit into the item location box!");
+            }
+        }
+
+        return Ok(());
+    }
+
+    /// Adapts the locations of all items whose data is stored at or behind the
+    /// given position of this file, as this data gets moved by `delta` bytes.
+    pub(crate) fn
+    move_data
+    (
+        &mut self,
+        position:     u64,
+        delta:        i64,
+        exif_item_id: Option<u32>
+    )
+    -> Result<(), std::io::Error>
     {
         for item in &mut self.items
         {
-            if item.get_construction_method() == ItemConstructionMethod::IDAT
+            // The location of the EXIF area itself gets handled separately
+            if Some(item.item_id) == exif_item_id
             {
-                // In this case the offset information is relative to the
-                // position of an idat box -> not affected by change in length
-                // of another box
                 continue;
             }
 
-            if item.get_construction_method() == ItemConstructionMethod::ITEM
+            // Offsets of other construction methods are relative to an idat 
+            // box or another item -> not affected by changes elsewhere
+            if item.get_construction_method() != ItemConstructionMethod::FILE
             {
-                // Offset is relative to another item's extent
-                // Also nothing to do here (for now...)
                 continue;
             }
 
@@ -474,15 +535,49 @@ ItemLocationBox
                 continue;
             }
 
-            // For now, just add the value to the extent offsets. 
-            // This may be problematic in case the offset points to a location
-            // before the iloc or iinf boxes, so changing their length won't
-            // affect that offset value
-            for extent in &mut item.extents
+            // Determine where the extents start after moving the data
+            let base_offset = item.base_offset;
+            let is_moved    = |start: u64| start >= position;
+            let new_start   = |start: u64| if is_moved(start)
+            {
+                u64::try_from(start as i64 + delta).ok()
+            }
+            else
+            {
+                Some(start)
+            };
+
+            let old_starts: Vec<u64> = item.extents.iter()
+                .map(|extent| base_offset + extent.extent_offset)
+                .collect();
+            let Some(new_starts) = old_starts.iter()
+                .map(|start| new_start(*start))
+                .collect::<Option<Vec<u64>>>()
+            else
+            {
+                return io_error!(InvalidData, "Location of item is out of range!");
+            };
+
+            // If all of the data is moved it is sufficient to change the base
+            // offset. Otherwise, the individual extent offsets are changed 
+            let all_moved = old_starts.iter().all(|start| is_moved(*start));
+            let new_base  = if all_moved && base_offset > 0
             {
-                extent.extent_offset = (extent.extent_offset as i64 + value) as u64;
+                (base_offset as i64 + delta).max(0) as u64
+            }
+            else
+            {
+                base_offset
+            };
+            item.base_offset = new_starts.iter().fold(new_base, |a, b| a.min(*b));
+
+            for (extent, start) in item.extents.iter_mut().zip(new_starts)
+            {
+                extent.extent_offset = start - item.base_offset;
             }
         }
+
+        return Ok(());
     }
 }
 
diff --git a/src/heif/container.rs b/src/heif/container.rs
index c8f9cad..ae4e8ad 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -7,8 +7,9 @@ use std::io::Seek;
 
 use crate::general_file_io::io_error;
 use crate::general_file_io::EXIF_HEADER;
+use crate::heif::box_header::BoxHeader;
 use crate::heif::box_type::BoxType;
-use crate::heif::boxes::item_location::ItemConstructionMethod;
+use crate::heif::boxes::iso::IsoBox;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
 use crate::heif::boxes::meta::MetaBox;
 use crate::heif::read_next_box;
@@ -341,31 +342,66 @@ HeifContainer
     }
 
 
+    /// The new exif area that gets created should start at the end of the mdat
+    /// area. If there is no mdat area yet, it gets created.
     fn
     get_start_address_for_new_exif_area
     (
-        &self
+        &mut self
     )
     -> u64
     {
-        // Assumes that the new exif area that gets created should start at the
-        // end of the mdat area
+        if let Some(mdat_index) = self.get_box_index(BoxType::mdat)
+        {
+            return self.get_box_range(mdat_index).1;
+        }
 
-        let mut byte_count = 0;
+        let mut mdat_header = BoxHeader::new_simple_box_header();
+        mdat_header.set_box_type_via_string("mdat");
+        self.boxes.push(Box::new(IsoBox::new_empty(mdat_header)));
 
-        for b in &self.boxes
-        {
-            byte_count += b.get_header().get_box_size();
+        return self.get_box_range(self.boxes.len() - 1).1;
+    }
 
-            if b.get_header().get_box_type() == BoxType::mdat
-            {
-                return byte_count as u64;
-            }
-        }
+    fn
+    get_box_index
+    (
+        &self,
+        box_type: BoxType
+    )
+    -> Option<usize>
+    {
+        return self.boxes.iter().position(|b| b.get_header().get_box_type() == box_type);
+    }
 
-        return u64::MAX;
+    /// Returns the positions where the box at the given index starts and ends
+    fn
+    get_box_range
+    (
+        &self,
+        index: usize
+    )
+    -> (u64, u64)
+    {
+        let start: u64 = self.boxes[..index].iter().map(|b| b.serialize().len() as u64).sum();
+        return (start, start + self.boxes[index].serialize().len() as u64);
     }
 
+    fn
+    serialize
+    (
+        &self
+    )
+    -> Vec<u8>
+    {
+        let mut serialized = Vec::new();
+        for iso_box in &self.boxes
+        {
+            serialized.extend(iso_box.serialize());
+        }
+        serialized.extend(&self.trailing);
+        return serialized;
+    }
 
     pub(super) fn
     generic_write_metadata
@@ -376,13 +412,24 @@ HeifContainer
     )
     -> Result<(), std::io::Error>
     {
+        // Positions can only be updated if the boxes are exactly what the file
+        // consists of
+        if self.serialize() != *file_buffer
+        {
+            return io_error!(Unsupported, "HEIF file has boxes that can't be reproduced");
+        }
+
         // Find out where old exif is located, needed to determine which iloc
         // entries need to be updated
-        let mut id = self.get_item_id_exif_data();
+        let old_id = self.get_item_id_exif_data();
 
         // Check that the ID is okay - if not, there is no exif area yet and
         // we need to create one!
-        if id.is_err()
+        let id = if let Ok(old_id) = old_id
+        {
+            old_id
+        }
+        else
         {
             // What we need to do at this point is
             // - Create a new item location entry that points to the EXIF data
@@ -394,6 +441,13 @@ HeifContainer
             // Where to put the new exif area
             let new_exif_start = self.get_start_address_for_new_exif_area();
 
+            // Only the data behind the meta box moves when that box grows
+            let (_, end_of_meta) = match self.get_box_index(BoxType::meta)
+            {
+                Some(meta_index) => self.get_box_range(meta_index),
+                None             => return io_error!(Other, "No meta box found in HEIF container"),
+            };
+
             // If there is no iref box yet, create one so we can find one,
             // and get the size delta of the new box for extents
             let mut iref_size_delta = self.get_meta_box_mut()?.create_new_item_reference_box_if_none_exists_yet()?;
@@ -446,7 +500,7 @@ HeifContainer
             // Note that the given `new_exif_start` value is based on old
             // length values (which change due to adding a new item to both the
             // iloc and iinf boxes) - but this does not matter as this will 
-            // be updated anyway later by `add_to_extents`
+            // be updated anyway later by `move_data`
             // This way, we don't need any exception during the update procedure
             let (new_iloc_id, iloc_size_delta) = iloc.create_new_item_location_entry(
                 new_exif_start,
@@ -463,9 +517,11 @@ HeifContainer
             );
 
             // Fix the extents in the iloc box
-            iloc.add_to_extents(
-                (iloc_size_delta + iinf_size_delta + iref_size_delta) as i64
-            );
+            iloc.move_data(
+                end_of_meta,
+                (iloc_size_delta + iinf_size_delta + iref_size_delta) as i64,
+                None
+            )?;
 
             // Fix up the size of the meta box as well
             let new_box_size = self.get_meta_box()?.serialize().len() as u64;
@@ -475,17 +531,14 @@ HeifContainer
             // iloc item so that the exif area currently has a length of zero
 
             // Now we have a valid exif area with an iloc ID!
-            id = Ok(new_iloc_id);
-        }
+            new_iloc_id
+        };
 
         // Get position and length of current exif area
-        let (old_exif_pos, old_exif_len) = match &id {
-            Ok(idv) => self.get_exif_data_pos_and_len(*idv)?,
-            Err(_) => (0, 0),
-        };
+        let (old_exif_pos, old_exif_len) = self.get_exif_data_pos_and_len(id)?;
 
         // Get cursor for file
-        let mut cursor = Cursor::new(file_buffer);
+        let mut cursor = Cursor::new(&mut *file_buffer);
 
         // Construct new exif data area
         let (mut new_exif_area, delta) = self.construct_new_exif_data_area(
@@ -493,150 +546,53 @@ HeifContainer
             metadata
         )?;
 
-        let meta_mut = self.get_meta_box_mut()?;
-        for item in &mut meta_mut.get_item_location_box_mut()?.items
+        // Find the box that contains the exif data area
+        // Note that areas inside of nested boxes are not supported
+        let end_of_old_exif = old_exif_pos + old_exif_len;
+        let mut end_of_box = 0u64;
+        let Some(exif_box_index) = self.boxes.iter().position(|iso_box| {
+            let start_of_data = end_of_box + iso_box.get_header().get_header_size();
+            end_of_box += iso_box.serialize().len() as u64;
+            start_of_data <= old_exif_pos && end_of_old_exif <= end_of_box
+        })
+        else
         {
-            // First, check if any extent of this item has the same offset as
-            // the old exif data area. In that case, there must be only one
-            // extent - other cases can't be handled right now
-            if item.extents.iter()
-                .any(|extent| {
-                    item.base_offset + extent.extent_offset == old_exif_pos
-                })
-            {
-                if item.extents.len() != 1
-                {
-                    return io_error!(Other, "Expect to have exactly one extent info for EXIF!");
-                }
-
-                // In case of the EXIF extent information we need to update
-                // the length information, not the offset!
-                let first_extent = match item.extents.first() {
-                    Some(f) => f,
-                    None => return io_error!(Other, "Expected one extent for EXIF"),
-                };
-                let new_ext_len = (
-                    first_extent.extent_length as i64
-                    + delta
-                ) as u64;
-                match item.extents.first_mut() {
-                    Some(fm) => fm.extent_length = new_ext_len,
-                    None => return io_error!(Other, "Expected one extent for EXIF (mut)"),
-                }
-
-                 continue;
-            }
-
-            if item.get_construction_method() == ItemConstructionMethod::IDAT
-            {
-                // In this case the offset information is relative to the
-                // position of an idat box -> not affected by change in length
-                // of another box
-                continue;
-            }
-
-            if item.get_construction_method() == ItemConstructionMethod::ITEM
-            {
-                // Offset is relative to another item's extent
-                // Also nothing to do here (for now...)
-                continue;
-            }
-
-            if item.data_reference_index != 0
-            {
-                // A value other than 0 implies that this extent refers to
-                // another file, not this one, so we can also skip this
-                // See ISO/IEC 14496-12:2015 § 8.11.3.1, p. 78
-                continue;
-            }
-
-            if item.base_offset > delta.unsigned_abs()
-            {
-                // Potentially modify the entire base offset 
-                // however, we can only do that if all complete offsets
-                // point to an area after the exif data area
-                // So we need to check that first:
-                if item.extents.iter()
-                    .all(|extent| {
-                        item.base_offset + extent.extent_offset >= old_exif_pos
-                    })
-                {
-                    item.base_offset = (item.base_offset as i64 + delta) as u64;
-                    continue;
-                }
-            }
-
-            // At this point we have no option left but to modify all 
-            // individual extent offsets
-            for extent in &mut item.extents
-            {
-                let complete_offset = item.base_offset + extent.extent_offset;
+            return io_error!(InvalidData, "EXIF data is not located inside of a box");
+        };
 
-                if complete_offset > old_exif_pos
-                {
-                    extent.extent_offset = (extent.extent_offset as i64 + delta) as u64;
-                }
-            }
+        let exif_box_header = self.boxes[exif_box_index].get_header_mut();
+        if exif_box_header.get_box_type() == BoxType::meta
+        {
+            return io_error!(Unsupported, "EXIF data inside of the meta box is not supported");
         }
 
-        // Now we clear the vec and write the boxes to it
-        // Keep track of how many bytes were written so we know when to 
-        // replace old exif data with new
-        cursor.get_mut().clear();
-
-        let mut written_bytes    = 0usize;
-        let mut new_exif_written = false;
-        let     end_of_old_exif  = (old_exif_pos + old_exif_len) as usize;
-
-        for iso_box in &mut self.boxes
+        // Update the size of that box, except when it extends to the end of
+        // the file
+        if exif_box_header.get_box_size() != 0
         {
-            let mut serialized = iso_box.serialize();
-
-            // If this box encompasses the exif data area, update its size and
-            // serialize it again
-            // TODO: As this is not the cleanest approach (e.g. what if the
-            // exif area is not in this top level box but some nested box? 
-            // -> requires update of size fields of all boxes "downward") some
-            // other solution needs to be found for this
-            // In the meantime, this should work for the majority of HEIFs
-            if 
-                written_bytes + serialized.len() >= end_of_old_exif 
-                && 
-                !new_exif_written
-            {
-                let new_size = (iso_box.get_header().get_box_size() as i64 + delta) as u64;
-                iso_box.get_header_mut().set_box_size(new_size);
-                serialized = iso_box.serialize();
-
-                // Write the serialized box with the OLD exif data
-                cursor.get_mut().extend(&serialized);
-
-                // Remove old exif data
-                range_remove(
-                    cursor.get_mut(), 
-                    old_exif_pos as usize, 
-                    (old_exif_pos + old_exif_len) as usize
-                );
-
-                // Insert new exif data
-                insert_multiple_at(
-                    cursor.get_mut(),
-                    old_exif_pos as usize, 
-                    &mut new_exif_area
-                );
-
-                new_exif_written = true;
-            }
-            else
-            {
-                // Just extend with the serialized box contents
-                cursor.get_mut().extend(&serialized);
-            }
-
-            written_bytes += serialized.len();
+            exif_box_header.change_box_size(delta)?;
         }
 
-        cursor.get_mut().extend(&self.trailing);
+        // Update the location of the exif data area itself and of everything
+        // located behind it
+        let iloc = self.get_meta_box_mut()?.get_item_location_box_mut()?;
+        iloc.move_data(end_of_old_exif, delta, Some(id))?;
+        iloc.set_length(id, new_exif_area.len() as u64);
+        iloc.check_locations()?;
+
+        // Now write the boxes with the OLD exif data and replace it
+        *file_buffer = self.serialize();
+
+        range_remove(
+            file_buffer, 
+            old_exif_pos    as usize, 
+            end_of_old_exif as usize
+        );
+        insert_multiple_at(
+            file_buffer,
+            old_exif_pos as usize, 
+            &mut new_exif_area
+        );
 
         return Ok(());
     }
-- 
2.43.0


From a08e6605c762d3e2d50a5311282bc148547addbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:56 +0000
Subject: [PATCH 37/53] fix: use an unused ID for new HEIF EXIF items and refer
 to the primary item

---
 src/heif/boxes/item_location.rs | 15 ++++++---------
 src/heif/boxes/meta.rs          | 30 ++++++++++++++++++++++++++++++
 src/heif/container.rs           | 22 +++++++++++++++++++---
 3 files changed, 55 insertions(+), 12 deletions(-)

diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index 8a1c4da..0610680 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -396,30 +396,27 @@ ItemLocationBox
     create_new_item_location_entry
     (
         &mut self,
+        new_item_id: u32,
         data_start:  u64,
         data_length: u64
     )
     -> (u32, u64)
     {
-        // Determine largest iloc ID so far
-        let old_largest_id = self.items
-            .iter()
-            .map(|x| x.item_id)
-            .max()
-            .unwrap_or(0);
+        // Without space for the extent offset the base offset has to be used
+        let (base_offset, extent_offset) = if self.offset_size == 0 { (data_start, 0) } else { (0, data_start) };
 
         self.items.push(ItemLocationEntry 
             {
-                item_id:                          old_largest_id + 1, 
+                item_id:                          new_item_id, 
                 reserved_and_construction_method: 0, 
                 data_reference_index:             0, 
-                base_offset:                      0,
+                base_offset,
                 extent_count:                     1, 
                 extents:                          vec![
                     ItemLocationEntryExtentEntry 
                     {
                         extent_index:  Some(0),
-                        extent_offset: data_start,
+                        extent_offset,
                         extent_length: data_length,
                     }
                 ]
diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 59193a7..cacfb50 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -9,6 +9,7 @@ use crate::endian::Endian;
 use crate::general_file_io::io_error;
 use crate::u8conversion::U8conversion;
 use crate::u8conversion::to_u8_vec_macro;
+use crate::util::read_be_u16;
 use crate::util::read_be_u32;
 
 use crate::heif::box_type::BoxType;
@@ -123,6 +124,35 @@ MetaBox
         return None;
     }
 
+    /// Gets the ID of the primary item as stored in the pitm box. In case there
+    /// is no such box this is assumed to be item #1
+    pub(crate) fn
+    get_primary_item_id
+    (
+        &self
+    )
+    -> u32
+    {
+        let Some(pitm) = self.other_boxes.iter()
+            .find(|b| b.get_header().get_box_type() == BoxType::pitm)
+        else
+        {
+            return 1;
+        };
+
+        // See: ISO/IEC 14496-12:2015, § 8.11.4.2
+        let     serialized = pitm.serialize();
+        let mut cursor     = Cursor::new(&serialized[pitm.get_header().get_header_size() as usize..]);
+        return if pitm.get_header().get_version() == 0
+        {
+            read_be_u16(&mut cursor).map(|id| id as u32)
+        }
+        else
+        {
+            read_be_u32(&mut cursor)
+        }.unwrap_or(1);
+    }
+
     pub(crate) fn
     create_new_item_reference_box_if_none_exists_yet
     (
diff --git a/src/heif/container.rs b/src/heif/container.rs
index ae4e8ad..68d4a3d 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -1,6 +1,7 @@
 // Copyright © 2025-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
+use std::collections::BTreeSet;
 use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
@@ -436,7 +437,7 @@ HeifContainer
             // - Create an item information entry that tells us that the iloc 
             //   entry points to EXIF data
             // - Create an item reference entry that links the EXIF data to the
-            //   image/iloc ID #1 -> is this always #1?
+            //   primary item
 
             // Where to put the new exif area
             let new_exif_start = self.get_start_address_for_new_exif_area();
@@ -461,7 +462,8 @@ HeifContainer
             let mut iinf_opt = None;
             let mut iref_opt = None;
 
-            let meta_mut_ref = self.get_meta_box_mut()?;
+            let meta_mut_ref    = self.get_meta_box_mut()?;
+            let primary_item_id = meta_mut_ref.get_primary_item_id();
             for other_box in &mut meta_mut_ref.other_boxes
             {
                 if other_box.get_header().get_box_type() == BoxType::iloc
@@ -502,7 +504,21 @@ HeifContainer
             // iloc and iinf boxes) - but this does not matter as this will 
             // be updated anyway later by `move_data`
             // This way, we don't need any exception during the update procedure
+            // The new item needs an ID that is not used by any other item
+            let used_ids: BTreeSet<u32> = iloc.items.iter().map(|item| item.item_id)
+                .chain(iinf.items.iter().map(|item| item.item_id))
+                .collect();
+            let largest_id = used_ids.last().copied().unwrap_or(0);
+            let Some(new_id) = (largest_id.saturating_add(1)..=u16::MAX as u32)
+                .chain(1..=u16::MAX as u32)
+                .find(|id| !used_ids.contains(id))
+            else
+            {
+                return io_error!(Unsupported, "No unused item ID available for EXIF data");
+            };
+
             let (new_iloc_id, iloc_size_delta) = iloc.create_new_item_location_entry(
+                new_id,
                 new_exif_start,
                 0
             );
@@ -513,7 +529,7 @@ HeifContainer
                               iref_size_delta += iref.create_new_single_item_reference_box(
                 "cdsc",             // TODO: Check if this is always this type?
                 new_iloc_id, 
-                vec![1]             // TODO: Check if this is always item #1?
+                vec![primary_item_id]
             );
 
             // Fix the extents in the iloc box
-- 
2.43.0


From 713d03fa6086c29de6085bbf22816f49e9ea0d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:26 +0000
Subject: [PATCH 38/53] fix: update the chunk offsets of HEIF image sequences

---
 src/heif/boxes/iso.rs | 81 +++++++++++++++++++++++++++++++++++++++++++
 src/heif/container.rs | 33 +++++++++++++++---
 2 files changed, 109 insertions(+), 5 deletions(-)

diff --git a/src/heif/boxes/iso.rs b/src/heif/boxes/iso.rs
index 42db2d1..ca918c2 100644
--- a/src/heif/boxes/iso.rs
+++ b/src/heif/boxes/iso.rs
@@ -20,6 +20,87 @@ IsoBox
 impl
 IsoBox
 {
+    /// Adapts the file offsets stored in the given content of a moov box (or 
+    /// one of the nested boxes) to data located at or behind the given position
+    /// being moved by `delta` bytes.
+    /// See: ISO/IEC 14496-12:2015, § 8.7.5
+    fn
+    move_chunk_offsets
+    (
+        mut data: &mut [u8],
+        path:     &[&[u8; 4]],
+        position: u64,
+        delta:    i64
+    )
+    -> Result<(), std::io::Error>
+    {
+        loop
+        {
+            let Ok(header) = BoxHeader::read_box_header(&mut std::io::Cursor::new(&*data)) else
+            {
+                return Ok(());
+            };
+            if header.get_box_size() < header.get_header_size() || header.get_box_size() > data.len() as u64
+            {
+                return Ok(());
+            }
+
+            let (current, remaining) = data.split_at_mut(header.get_box_size() as usize);
+            let content     = &mut current[header.get_header_size() as usize..];
+            let box_type    = header.get_box_type().to_4_bytes();
+            let offset_size = match (path.split_first(), box_type.as_slice())
+            {
+                (Some((next, path)), _) if box_type == next.as_slice() => { Self::move_chunk_offsets(content, path, position, delta)?; 0 },
+                (None, b"stco") => 4,
+                (None, b"co64") => 8,
+                _               => 0
+            };
+
+            if offset_size > 0 && content.len() > 4
+            {
+                for field in content[4..].chunks_exact_mut(offset_size)
+                {
+                    let offset = field.iter().fold(0u64, |value, byte| value << 8 | *byte as u64);
+                    if offset < position
+                    {
+                        continue;
+                    }
+
+                    let new_offset = (offset as i128 + delta as i128).to_be_bytes();
+                    let (unused, new_field) = new_offset.split_at(16 - offset_size);
+                    if unused.iter().any(|byte| *byte != 0)
+                    {
+                        return Err(std::io::Error::new(
+                            std::io::ErrorKind::Unsupported, 
+                            "Chunk offset does not fit into its field"
+                        ));
+                    }
+                    field.copy_from_slice(new_field);
+                }
+            }
+
+            data = remaining;
+        }
+    }
+
+    /// Adapts the file offsets stored in this box, given that it is a moov box
+    pub(crate) fn
+    move_data
+    (
+        &mut self,
+        position: u64,
+        delta:    i64
+    )
+    -> Result<(), std::io::Error>
+    {
+        return Self::move_chunk_offsets(
+            &mut self.data, 
+            &[b"trak", b"mdia", b"minf", b"stbl"], 
+            position, 
+            delta
+        );
+    }
+
     pub(crate) fn
     new_empty
     (
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 68d4a3d..c7e711c 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -364,6 +364,30 @@ HeifContainer
         return self.get_box_range(self.boxes.len() - 1).1;
     }
 
+    /// Image sequences don't only consist of items but also of tracks which 
+    /// store their own locations
+    fn
+    move_chunk_offsets
+    (
+        &mut self,
+        position: u64,
+        delta:    i64
+    )
+    -> Result<(), std::io::Error>
+    {
+        for iso_box in &mut self.boxes
+        {
+            if iso_box.get_header().get_box_type() == BoxType::from_4_bytes(*b"moov")
+            {
+                if let Some(moov) = iso_box.as_any_mut().downcast_mut::<IsoBox>()
+                {
+                    moov.move_data(position, delta)?;
+                }
+            }
+        }
+        return Ok(());
+    }
+
     fn
     get_box_index
     (
@@ -533,11 +557,9 @@ HeifContainer
             );
 
             // Fix the extents in the iloc box
-            iloc.move_data(
-                end_of_meta,
-                (iloc_size_delta + iinf_size_delta + iref_size_delta) as i64,
-                None
-            )?;
+            let meta_size_delta = (iloc_size_delta + iinf_size_delta + iref_size_delta) as i64;
+            iloc.move_data(end_of_meta, meta_size_delta, None)?;
+            self.move_chunk_offsets(end_of_meta, meta_size_delta)?;
 
             // Fix up the size of the meta box as well
             let new_box_size = self.get_meta_box()?.serialize().len() as u64;
@@ -595,6 +617,7 @@ HeifContainer
         iloc.move_data(end_of_old_exif, delta, Some(id))?;
         iloc.set_length(id, new_exif_area.len() as u64);
         iloc.check_locations()?;
+        self.move_chunk_offsets(end_of_old_exif, delta)?;
 
         // Now write the boxes with the OLD exif data and replace it
         *file_buffer = self.serialize();
-- 
2.43.0


From f6f5f9713a0cbd4193f89e09ff2a30377a862770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:13 +0000
Subject: [PATCH 39/53] fix: treat excessive JXL box lengths the same for files
 and buffers

---
 src/jxl.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index 65a1660..eac0767 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -159,10 +159,11 @@ read_box_header
         length => (length as u64).checked_sub(8),
     };
 
-    // Limit this to values that can be used for relative seek operations
+    // Limit this to values that can be used for relative seek operations on
+    // any file system
     match opt_data_length
     {
-        Some(length) if length < i64::MAX as u64 / 2
+        Some(length) if length < 1 << 40
             => Ok((type_buffer, length)),
         _
             => io_error!(InvalidData, "Invalid box length found in JXL data!")
-- 
2.43.0


From 47299c6e09f88862f8962e0d28be92054d5282ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:55 +0000
Subject: [PATCH 40/53] fix: keep XMP attributes with double quotes in their
 values well-formed

---
 src/xmp.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/xmp.rs b/src/xmp.rs
index d2804f6..f3b5ee1 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -147,6 +147,21 @@ get_exif_filtered_event<'a>
                         true
                     }
                 }
+            )
+            .map(|mut attribute|
+                {
+                    // The attribute gets written with double quotes, although
+                    // the original might have used single quotes
+                    if attribute.value.contains(&b'"')
+                    {
+                        attribute.value = attribute.value
+                            .split(|byte| *byte == b'"')
+                            .collect::<Vec<&[u8]>>()
+                            .join(&b"&quot;"[..])
+                            .into();
+                    }
+                    attribute
+                }
             ),
     );
 
-- 
2.43.0


From 232918a41735a24536ede6201c43be1daf52e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 41/53] fix: cut off what is left of a longer old TIFF file
 when writing

---
 src/tiff/file.rs | 21 ++++++++++++---------
 src/tiff/mod.rs  | 14 ++++----------
 src/tiff/vec.rs  | 20 +++++++++-----------
 3 files changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/tiff/file.rs b/src/tiff/file.rs
index 0066f7c..7ae8ce5 100644
--- a/src/tiff/file.rs
+++ b/src/tiff/file.rs
@@ -2,7 +2,7 @@
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
 use std::io::BufReader;
-use std::io::BufWriter;
+use std::io::Write;
 use std::path::Path;
 
 use crate::general_file_io::open_read_file;
@@ -10,7 +10,7 @@ use crate::general_file_io::open_write_file;
 use crate::metadata::Metadata;
 
 use super::generic_read_metadata;
-use super::generic_write_metadata;
+use super::generic_encode_metadata;
 
 pub(crate) fn
 read_metadata
@@ -31,16 +31,14 @@ clear_metadata
 -> Result<(), std::io::Error>
 {
 	// Read in the data
-	let     raw_data = generic_read_metadata(&mut BufReader::new(open_read_file(path)?));
+	let     raw_data = read_metadata(path);
 	let mut data     = Metadata::general_decoding_wrapper(raw_data)?;
 
 	// Remove all IFDs that aren't required
 	data.reduce_to_a_minimum();
 
-	// Write the reduced data back to the backup cursor
-	generic_write_metadata(&mut BufWriter::new(open_write_file(path)?), &data)?;
-
-	return Ok(());
+	// Write the reduced data back
+	return write_metadata(path, &data);
 }
 
 pub(crate) fn 
@@ -51,6 +49,11 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-	let mut buffered_file = BufWriter::new(open_write_file(path)?);
-	return generic_write_metadata(&mut buffered_file, metadata);
+	let mut file     = open_write_file(path)?;
+	let     new_data = generic_encode_metadata(metadata)?;
+
+	// Does *not* call clear_metadata, as the entire tiff data gets replaced
+	// anyways. What is left of a longer old file has to be cut off.
+	file.write_all(&new_data)?;
+	return file.set_len(new_data.len() as u64);
 }
\ No newline at end of file
diff --git a/src/tiff/mod.rs b/src/tiff/mod.rs
index 9b51379..a64609c 100644
--- a/src/tiff/mod.rs
+++ b/src/tiff/mod.rs
@@ -3,7 +3,6 @@
 
 use std::io::Seek;
 use std::io::Read;
-use std::io::Write;
 
 use crate::general_file_io::EXIF_HEADER;
 use crate::io_error;
@@ -13,23 +12,18 @@ use crate::ifd::ExifTagGroup::*;
 pub mod file;
 pub mod vec;
 
+/// Encodes the metadata, which at the same time is the new content of the file
 pub(crate) fn
-generic_write_metadata
-<T: Seek + Write>
+generic_encode_metadata
 (
-    cursor:   &mut T,
     metadata: &Metadata
 )
--> Result<(), std::io::Error>
+-> Result<Vec<u8>, std::io::Error>
 {
     // First, check for required tags
     check_for_required_tags(metadata)?;
 
-    // Does *not* call generic_clear_metadata, as the entire tiff data gets
-    // overwritten anyways
-    cursor.write_all(&metadata.encode()?)?;
-
-    return Ok(());
+    return metadata.encode();
 }
 
 fn
diff --git a/src/tiff/vec.rs b/src/tiff/vec.rs
index 09ac912..8fff0b2 100644
--- a/src/tiff/vec.rs
+++ b/src/tiff/vec.rs
@@ -6,7 +6,7 @@ use std::io::Cursor;
 use crate::metadata::Metadata;
 
 use super::generic_read_metadata;
-use super::generic_write_metadata;
+use super::generic_encode_metadata;
 
 pub(crate) fn
 read_metadata
@@ -26,20 +26,15 @@ clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-	// Create cursor
-	let mut cursor           = Cursor::new(file_buffer);
-	let     cursor_start_pos = cursor.position();
-
 	// Read in the data
-	let     raw_data = generic_read_metadata(&mut cursor);
+	let     raw_data = read_metadata(file_buffer);
 	let mut data     = Metadata::general_decoding_wrapper(raw_data)?;
 
 	// Remove all IFDs that aren't required
 	data.reduce_to_a_minimum();
 
-	// Write the reduced data back to the backup cursor
-	cursor.set_position(cursor_start_pos);
-	return generic_write_metadata(&mut cursor, &data);
+	// Write the reduced data back
+	return write_metadata(file_buffer, &data);
 }
 
 pub(crate) fn
@@ -50,6 +45,9 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-	let mut cursor = Cursor::new(file_buffer);
-	return generic_write_metadata(&mut cursor, metadata);
+	// Does *not* call clear_metadata, as the entire tiff data gets replaced
+	// anyways
+	*file_buffer = generic_encode_metadata(metadata)?;
+
+	return Ok(());
 }
\ No newline at end of file
-- 
2.43.0


From d1ca98012c2eed53d26016157c606b807bd76bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 42/53] fix: keep only tags of IFD0 when clearing a HEIF image

---
 src/heif/container.rs | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index c7e711c..d77e085 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -14,6 +14,7 @@ use crate::heif::boxes::iso::IsoBox;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
 use crate::heif::boxes::meta::MetaBox;
 use crate::heif::read_next_box;
+use crate::ifd::ExifTagGroup;
 
 use crate::metadata::Metadata;
 use crate::util::insert_multiple_at;
@@ -675,28 +676,21 @@ HeifContainer
         // Construct new metadata that only contains the above tags
         let mut new_metadata = Metadata::new();
 
-        // 0x0112: Orientation
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x0112, None).next()
-        {
-            new_metadata.set_tag(tag.clone());
-        }
-
-        // 0x011A: XResolution
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x011A, None).next()
-        {
-            new_metadata.set_tag(tag.clone());
-        }
-
-        // 0x011A: YResolution
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x011B, None).next()
+        // These tags describe the image only if they are located in IFD0. In 
+        // other IFDs they describe something else, e.g. the thumbnail
+        if let Some(ifd0) = orig_metadata.get_ifd(ExifTagGroup::GENERIC, 0)
         {
-            new_metadata.set_tag(tag.clone());
-        }
-
-        // 0x0128: ResolutionUnit
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x0128, None).next()
-        {
-            new_metadata.set_tag(tag.clone());
+            // 0x0112: Orientation
+            // 0x011A: XResolution
+            // 0x011B: YResolution
+            // 0x0128: ResolutionUnit
+            for hex in [0x0112, 0x011A, 0x011B, 0x0128]
+            {
+                if let Some(tag) = ifd0.get_tags().iter().find(|tag| tag.as_u16() == hex)
+                {
+                    new_metadata.set_tag(tag.clone());
+                }
+            }
         }
 
         return self.generic_write_metadata(cursor.get_mut(), &new_metadata);
-- 
2.43.0


From f2bef0b675e8bcc5dedee9e656b8e73f5104895a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:02 +0000
Subject: [PATCH 43/53] fix: make base offsets in HEIF files independent of
 earlier changes

---
 src/heif/boxes/item_location.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index 0610680..537675c 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -555,18 +555,23 @@ ItemLocationBox
                 return io_error!(InvalidData, "Location of item is out of range!");
             };
 
-            // If all of the data is moved it is sufficient to change the base
-            // offset. Otherwise, the individual extent offsets are changed 
-            let all_moved = old_starts.iter().all(|start| is_moved(*start));
-            let new_base  = if all_moved && base_offset > 0
+            // Items without data at the affected positions stay as they are
+            if !old_starts.iter().any(|start| is_moved(*start))
             {
-                (base_offset as i64 + delta).max(0) as u64
+                continue;
+            }
+
+            // The new base offset must not depend on the old one (apart from 
+            // whether there is one), as otherwise the result would depend on 
+            // which data has been stored in between
+            item.base_offset = if base_offset == 0
+            {
+                0
             }
             else
             {
-                base_offset
+                new_starts.iter().copied().min().unwrap_or(0)
             };
-            item.base_offset = new_starts.iter().fold(new_base, |a, b| a.min(*b));
 
             for (extent, start) in item.extents.iter_mut().zip(new_starts)
             {
-- 
2.43.0


From 93159f46ad92dcba18f0222860d165302d8f0d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 44/53] fix: do not rely on the declared sizes of HEIF item
 tables when adding an item

---
 src/heif/boxes/item_info.rs     | 4 +++-
 src/heif/boxes/item_location.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/heif/boxes/item_info.rs b/src/heif/boxes/item_info.rs
index afaf722..708d4b2 100644
--- a/src/heif/boxes/item_info.rs
+++ b/src/heif/boxes/item_info.rs
@@ -191,6 +191,9 @@ ItemInfoBox
     )
     -> u64
     {
+        // The size given in the header is not necessarily the actual size
+        let old_box_size = self.serialize().len() as u64;
+
         self.items.push(ItemInfoEntryBox 
             { 
                 header:                BoxHeader::new_exif_info_entry_box_header(), 
@@ -207,7 +210,6 @@ ItemInfoBox
         // be adjusted as well
         // TODO: make this more efficient by only computing how much memory is
         // needed, not by actually serializing (and thus, allocating memory)
-        let old_box_size = self.header.get_box_size();
         let new_box_size = self.serialize().len() as u64;
         self.header.set_box_size(new_box_size);
 
diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index 537675c..9551ccb 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -402,6 +402,9 @@ ItemLocationBox
     )
     -> (u32, u64)
     {
+        // The size given in the header is not necessarily the actual size
+        let old_box_size = self.serialize().len() as u64;
+
         // Without space for the extent offset the base offset has to be used
         let (base_offset, extent_offset) = if self.offset_size == 0 { (data_start, 0) } else { (0, data_start) };
 
@@ -429,7 +432,6 @@ ItemLocationBox
         // be adjusted as well
         // TODO: make this more efficient by only computing how much memory is
         // needed, not by actually serializing (and thus, allocating memory)
-        let old_box_size = self.header.get_box_size();
         let new_box_size = self.serialize().len() as u64;
         self.header.set_box_size(new_box_size);
 
-- 
2.43.0


From 8afe5122cf7f9f2e68dd82b492884f4055c07d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:05 +0000
Subject: [PATCH 45/53] fix: recognise HEIF images by all of their major brands

---
 src/filetype.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/filetype.rs b/src/filetype.rs
index 6b1189a..68f7b08 100644
--- a/src/filetype.rs
+++ b/src/filetype.rs
@@ -87,19 +87,25 @@ FileExtension
                 return Some(FileExtension::JXL);
             }
 
-            // HEIC/HEIF/AVIF
-            // length       f     t     y     p 
+            // HEIC/HEIF/AVIF: the major brand of the ftyp box, see also:
+            // https://www.loc.gov/preservation/digital/formats/fdd/fdd000526.shtml
+            // length       f     t     y     p     major brand
               [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x68, 0x65, 0x69, 0x63, ..]  // heic
             | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x68, 0x65, 0x69, 0x66, ..]  // heif
+            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x68, 0x65, 0x69, 0x78, ..]  // heix
+            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x68, 0x65, 0x69, 0x6d, ..]  // heim
+            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x68, 0x65, 0x69, 0x73, ..]  // heis
+            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x68, 0x65, 0x76, 0x63, ..]  // hevc
+            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x68, 0x65, 0x76, 0x78, ..]  // hevx
+            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x6d, 0x69, 0x66, 0x31, ..]  // mif1
+            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x6d, 0x73, 0x66, 0x31, ..]  // msf1
             | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x61, 0x76, 0x69, 0x66, ..]  // avif
+            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x61, 0x76, 0x69, 0x73, ..]  // avis
             => 
             {
                 return Some(FileExtension::HEIF)
             }
 
-            // TODO: Other HEIF formats, e.g. ftypmif1, see also:
-            // https://www.loc.gov/preservation/digital/formats/fdd/fdd000526.shtml
-
             _ => { 
                 return None;
             }
-- 
2.43.0


From 9fea4e0d2f0f06c9e0b7474f1e25316f9bd6d388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:39 +0000
Subject: [PATCH 46/53] fix: keep numbers within the range of signed rationals,
 saturate at the maximum

---
 src/rational.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/rational.rs b/src/rational.rs
index 870aeed..7bde039 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -83,7 +83,7 @@ f64_to_rational64s
 )
 -> iR64
 {
-    let best_approximation = f64_to_rational64u(real_number);
+    let best_approximation = f64_to_rational(real_number, i32::MAX as u32);
     return iR64 {
         nominator: if real_number < 0.0 
             { 0-best_approximation.nominator as i32 } 
@@ -99,6 +99,19 @@ f64_to_rational64u
     real_number:     f64,
 )
 -> uR64
+{
+    f64_to_rational(real_number, u32::MAX)
+}
+
+/// The nominator of the result does not exceed the given maximum, so that it
+/// can be used for signed fractions as well
+fn
+f64_to_rational
+(
+    real_number:     f64,
+    max_nominator:   u32,
+)
+-> uR64
 {
     // Make sure that we are dealing with positive real numbers
     let real_number = real_number.abs();
@@ -110,9 +123,9 @@ f64_to_rational64u
     }
     
     // Check if real number is too large for us to handle
-    if real_number > u32::MAX as f64 - 0.5
+    if real_number > max_nominator as f64 - 0.5
     {
-        return uR64 { nominator: i32::MAX as u32, denominator: 1};
+        return uR64 { nominator: max_nominator, denominator: 1};
     }
 
     let mut reciprocal_residual     = real_number;
@@ -143,7 +156,7 @@ f64_to_rational64u
         if convergent.nominator > 0
         {
             n = std::cmp::min(
-                (u32::MAX - previous_convergent.nominator) / convergent.nominator, 
+                (max_nominator - previous_convergent.nominator) / convergent.nominator, 
                 n
             );	
         }
@@ -197,7 +210,7 @@ impl From<f64> for iR64 { fn from (val: f64) -> Self { f64_to_rational64s(val) }
 
 impl From<u32> for uR64 { fn from (val: u32) -> Self { f64_to_rational64u(val as f64) } }
 impl From<u32> for iR64 { fn from (val: u32) -> Self { f64_to_rational64s(val as f64) } }
-impl From<i32> for iR64 { fn from (val: i32) -> Self { f64_to_rational64s(val as f64) } }
+impl From<i32> for iR64 { fn from (val: i32) -> Self { iR64 { nominator: val, denominator: 1 } } }
 
 
 impl From<uR64> for f64 { fn from (val: uR64) -> Self { rational64u_to_f64(&val) } }
-- 
2.43.0


From 360f0aa4d3e39be5b5af4f2f953381881424a571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 47/53] fix: return an error instead of panicking when raw tag
 data does not fit the format

---
 src/exif_tag/mod.rs | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/src/exif_tag/mod.rs b/src/exif_tag/mod.rs
index d11f305..be523bc 100644
--- a/src/exif_tag/mod.rs
+++ b/src/exif_tag/mod.rs
@@ -143,6 +143,8 @@ macro_rules! build_tag_enum {
 			/// to the appropriate format.
 			/// If the hex value is unknown, the other parameters are used to
 			/// generate an appropriate unknown tag for the specified format.
+			/// If the raw data does not consist of a whole number of components
+			/// of that format, an error is returned.
 			/// 
 			/// # Examples
 			/// ```no_run
@@ -174,32 +176,32 @@ macro_rules! build_tag_enum {
 				{
 					$(
 						($hex_value, ExifTagGroup::$group) => Ok(ExifTag::$tag(
-							<paste!{[<$format_enum>]} as U8conversion<paste!{[<$format_enum>]}>>::from_u8_vec(raw_data, endian)
+							<paste!{[<$format_enum>]} as U8conversion<paste!{[<$format_enum>]}>>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?
 						)),
 					)*
 
-					(0x0111, _) => Ok(ExifTag::StripOffsets(   <INT32U as U8conversion<INT32U>>::from_u8_vec(&raw_data, endian), Vec::new())),
-					(0x0117, _) => Ok(ExifTag::StripByteCounts(<INT32U as U8conversion<INT32U>>::from_u8_vec(&raw_data, endian),           )),
+					(0x0111, _) => Ok(ExifTag::StripOffsets(   <INT32U as U8conversion<INT32U>>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, Vec::new())),
+					(0x0117, _) => Ok(ExifTag::StripByteCounts(<INT32U as U8conversion<INT32U>>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?,           )),
 
-					(0x0201, _) => Ok(ExifTag::ThumbnailOffset(<INT32U as U8conversion<INT32U>>::from_u8_vec(&raw_data, endian), Vec::new())),
-					(0x0202, _) => Ok(ExifTag::ThumbnailLength(<INT32U as U8conversion<INT32U>>::from_u8_vec(&raw_data, endian),           )),
+					(0x0201, _) => Ok(ExifTag::ThumbnailOffset(<INT32U as U8conversion<INT32U>>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, Vec::new())),
+					(0x0202, _) => Ok(ExifTag::ThumbnailLength(<INT32U as U8conversion<INT32U>>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?,           )),
 
 					_ => {
 						// In this case, the given hex_value represents a tag that is unknown
 						match *format
 						{
-							ExifTagFormat::INT8U       => Ok(ExifTag::UnknownINT8U(      <INT8U       as U8conversion<INT8U      >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::STRING      => Ok(ExifTag::UnknownSTRING(     <STRING      as U8conversion<STRING     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT16U      => Ok(ExifTag::UnknownINT16U(     <INT16U      as U8conversion<INT16U     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT32U      => Ok(ExifTag::UnknownINT32U(     <INT32U      as U8conversion<INT32U     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::RATIONAL64U => Ok(ExifTag::UnknownRATIONAL64U(<RATIONAL64U as U8conversion<RATIONAL64U>>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT8S       => Ok(ExifTag::UnknownINT8S(      <INT8S       as U8conversion<INT8S      >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::UNDEF       => Ok(ExifTag::UnknownUNDEF(      <UNDEF       as U8conversion<UNDEF      >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT16S      => Ok(ExifTag::UnknownINT16S(     <INT16S      as U8conversion<INT16S     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::INT32S      => Ok(ExifTag::UnknownINT32S(     <INT32S      as U8conversion<INT32S     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::RATIONAL64S => Ok(ExifTag::UnknownRATIONAL64S(<RATIONAL64S as U8conversion<RATIONAL64S>>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::FLOAT       => Ok(ExifTag::UnknownFLOAT(      <FLOAT       as U8conversion<FLOAT      >>::from_u8_vec(raw_data, endian), hex_value, *group)),
-							ExifTagFormat::DOUBLE      => Ok(ExifTag::UnknownDOUBLE(     <DOUBLE      as U8conversion<DOUBLE     >>::from_u8_vec(raw_data, endian), hex_value, *group)),
+							ExifTagFormat::INT8U       => Ok(ExifTag::UnknownINT8U(      <INT8U       as U8conversion<INT8U      >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::STRING      => Ok(ExifTag::UnknownSTRING(     <STRING      as U8conversion<STRING     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT16U      => Ok(ExifTag::UnknownINT16U(     <INT16U      as U8conversion<INT16U     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT32U      => Ok(ExifTag::UnknownINT32U(     <INT32U      as U8conversion<INT32U     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::RATIONAL64U => Ok(ExifTag::UnknownRATIONAL64U(<RATIONAL64U as U8conversion<RATIONAL64U>>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT8S       => Ok(ExifTag::UnknownINT8S(      <INT8S       as U8conversion<INT8S      >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::UNDEF       => Ok(ExifTag::UnknownUNDEF(      <UNDEF       as U8conversion<UNDEF      >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT16S      => Ok(ExifTag::UnknownINT16S(     <INT16S      as U8conversion<INT16S     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::INT32S      => Ok(ExifTag::UnknownINT32S(     <INT32S      as U8conversion<INT32S     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::RATIONAL64S => Ok(ExifTag::UnknownRATIONAL64S(<RATIONAL64S as U8conversion<RATIONAL64S>>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::FLOAT       => Ok(ExifTag::UnknownFLOAT(      <FLOAT       as U8conversion<FLOAT      >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
+							ExifTagFormat::DOUBLE      => Ok(ExifTag::UnknownDOUBLE(     <DOUBLE      as U8conversion<DOUBLE     >>::from_u8_vec_res(raw_data, endian).map_err(|e| e.to_string())?, hex_value, *group)),
 						}
 					},
 				}
-- 
2.43.0


From c0be397fbe5042b2af635f662fc58178774183b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:24 +0000
Subject: [PATCH 48/53] fix: do not take a partial read for the end of a WebP
 file

---
 src/webp/file.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index b6c71d4..4994861 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -66,8 +66,10 @@ get_next_chunk
 -> Result<RiffChunk, std::io::Error>
 {
     // Read the start of the chunk
-    let mut chunk_start = [0u8; 8];
-    let bytes_read = file.read(&mut chunk_start)?;
+    // Note that a single call of `read` may yield fewer bytes than there are
+    // left, which must not be taken for the end of the file
+    let mut chunk_start = Vec::new();
+    let bytes_read = file.take(8).read_to_end(&mut chunk_start)?;
 
     // Check that indeed 8 bytes were read
     if bytes_read != 8
-- 
2.43.0


From 8076c3b623af2e72664df6173d746b76036d5440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:11 +0000
Subject: [PATCH 49/53] fix: honour the TIFF header offset of a JPEG XL Exif
 box

---
 src/jxl.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index eac0767..6a6feb7 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -357,6 +357,30 @@ read_box_data
     return Ok(data);
 }
 
+/// The first 4 bytes of an Exif box tell where, relative to the byte following 
+/// them, the TIFF header is located
+fn
+skip_to_tiff_header
+(
+    exif_box_data: &[u8]
+)
+-> Result<Vec<u8>, std::io::Error>
+{
+    if exif_box_data.len() < 4
+    {
+        return io_error!(InvalidData, "JXL Exif box is too small!");
+    }
+
+    let (offset_field, exif_data) = exif_box_data.split_at(4);
+    let offset = from_u8_vec_res_macro!(u32, offset_field, &Endian::Big)?;
+
+    return match exif_data.get(offset as usize..)
+    {
+        Some(data) => Ok(data.to_vec()),
+        None       => io_error!(InvalidData, "JXL Exif box does not contain a TIFF header!")
+    };
+}
+
 fn
 generic_read_metadata
 <T: Seek + Read>
@@ -373,11 +397,7 @@ generic_read_metadata
         match type_buffer
         {
             EXIF => {
-                // Skip the next 4 bytes (which contain the minor version???)
-                cursor.seek(SeekFrom::Current(4))?;
-
-                // `length-4` because of the previous relative seek operation
-                return read_box_data(cursor, length.saturating_sub(4));
+                return skip_to_tiff_header(&read_box_data(cursor, length)?);
             },
 
             BROB_BOX => { // -> Brotli encoded data
@@ -402,9 +422,7 @@ generic_read_metadata
                         Err(e) => return Err(e)
                     };
 
-                    // Ignore the next 4 bytes (I guess for the same reason 
-                    // as above - some sort of minor version?)
-                    return Ok(decompressed_exif_buffer.into_iter().skip(4).collect());
+                    return skip_to_tiff_header(&decompressed_exif_buffer);
                 }
                 else 
                 {
-- 
2.43.0


From d86b6cff1addc421fb1933fdc6af7ac468ed03b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 50/53] fix: keep the text of an XMP element when an exif
 element was removed before it

---
 src/xmp.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/xmp.rs b/src/xmp.rs
index f3b5ee1..06dc006 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -35,6 +35,9 @@ remove_exif_from_xmp
         // Read in the event
         let read_event = reader.read_event_into(&mut read_buffer);
 
+        // Only the newline that directly follows a removed element is skipped
+        let skip_this_nl = std::mem::replace(&mut skip_next_nl, false);
+
         match read_event
         {
             Ok(Event::Start(ref event)) => {
@@ -92,11 +95,7 @@ remove_exif_from_xmp
                     .filter(|c| *c == '\n' || !c.is_whitespace())
                     .collect::<Vec<char>>();
 
-                if characters == vec!['\n'] && skip_next_nl
-                {
-                    skip_next_nl = false;
-                }
-                else if skip_depth == 0 
+                if skip_depth == 0 && !(characters == vec!['\n'] && skip_this_nl)
                 {
                     writer.write_event(Event::Text(event.clone()))?; 
                 }
-- 
2.43.0


From 16e6a2de0357e80a98dd267e96ace649de547a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:46 +0000
Subject: [PATCH 51/53] fix: open a WebP file for reading only when reading its
 metadata

---
 src/webp/file.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 4994861..de06606 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -21,18 +21,15 @@ use super::*;
 /// - The file size starting at offset 8                       -> 4 bytes
 /// - The WEBP signature: ASCII characters "W", "E", "B", "P"  -> 4 bytes
 /// 
-/// This function checks these 3 sections and their correctness after making
-/// sure that the file actually exists and can be opened. 
+/// This function checks these 3 sections and their correctness.
 /// Finally, the file struct is returned for further processing
 fn
 check_signature
 (
-    path: &Path
+    mut file: File
 )
 -> Result<File, std::io::Error>
 {
-    let mut file = open_write_file(path)?;
-
     // Get the first 12 bytes that are required for the following checks
     let mut first_12_bytes = [0u8; 12];
     let     bytes_read     = file.read(&mut first_12_bytes)?;
@@ -140,7 +137,7 @@ parse_webp
 )
 -> Result<Vec<RiffChunkDescriptor>, std::io::Error>
 {
-    let mut file   = check_signature(path)?;
+    let mut file   = check_signature(open_read_file(path)?)?;
     let mut chunks = Vec::new();
 
     // The amount of data we expect to read while parsing the chunks
@@ -236,7 +233,7 @@ check_exif_in_file
     // - RIFF + file size + WEBP -> 12 byte
     // - VP8X header             ->  4 byte
     // - VP8X chunk size         ->  4 byte
-    let mut file = check_signature(path)?;
+    let mut file = check_signature(open_read_file(path)?)?;
     let mut flag_buffer = vec![0u8; 4usize];
     file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
     if file.read(&mut flag_buffer)? != 4
@@ -511,7 +508,7 @@ set_exif_flag
     let parsed_webp_result = parse_webp(path)?;
 
     // Open the file for further processing
-    let mut file = check_signature(path)?;
+    let mut file = check_signature(open_write_file(path)?)?;
 
     // Next, check if this is an Extended File Format WebP file
     // In this case, the first Chunk SHOULD have the type "VP8X"
@@ -568,9 +565,9 @@ clear_metadata
 {
     // Check the file signature, parse it, check that it has a VP8X chunk and
     // the EXIF flag is set there
-    let (mut file, parse_webp_result) = match check_exif_in_file(path) 
+    let parse_webp_result = match check_exif_in_file(path) 
     {
-        Ok((file, parse_webp_result)) => (file, parse_webp_result),
+        Ok((_, parse_webp_result)) => parse_webp_result,
         Err(e) => {
             match e.to_string().as_str()
             {
@@ -586,6 +583,9 @@ clear_metadata
         }
     };
 
+    // Open the file for further processing
+    let mut file = check_signature(open_write_file(path)?)?;
+
     // Compute a delta of how much the file size information has to change
     let mut delta = 0i32;
 
@@ -672,7 +672,7 @@ write_metadata
     let encoded_metadata = encode_metadata_webp(&metadata.encode()?);
 
     // Open the file...
-    let mut file = check_signature(path)?;
+    let mut file = check_signature(open_write_file(path)?)?;
 
     // ...and find a location where to put the EXIF chunk
     // This is done by requesting all chunk descriptors and looking for the last
-- 
2.43.0


From f7fa98d78e22f4733b9ceb46135c3682cc857e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 52/53] fix: ignore a second pointer to a sub-directory that a
 directory already has

---
 src/ifd/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 852129b..6a520da 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -277,6 +277,16 @@ ImageFileDirectory
             // If this is an IFD offset tag, perform a recursive call
             if let TagType::IFD_OFFSET(subifd_group) = tag.get_tag_type()
             {
+                // There may only be one SubIFD per group
+                if insert_into.iter().any(|ifd| 
+                    ifd.get_ifd_type()       == subifd_group && 
+                    ifd.get_generic_ifd_nr() == generic_ifd_nr
+                )
+                {
+                    log::warn!("Ignoring further SubIFD {subifd_group:?}!");
+                    continue;
+                }
+
                 // Compute the offset to the SubIFD and save the current position
                 let offset          = from_u8_vec_res_macro!(u32, &raw_data, endian)? as usize;
                 let backup_position = data_cursor.position();
-- 
2.43.0


From 73321372bffa41aeb38f461a1acfa956b200243c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:17 +0000
Subject: [PATCH 53/53] fix: refuse directories with more entries than fit the
 entry count

---
 src/ifd/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 6a520da..8c1a6ce 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -551,7 +551,10 @@ ImageFileDirectory
                  TagType::IFD_OFFSET(_) |
                  TagType::DATA_OFFSET(_)
             )
-        ).count() as u16;
+        ).count();
+        let Ok(count_entries) = u16::try_from(count_entries) else {
+            return io_error!(InvalidInput, format!("Too many tags for a single IFD: {}", count_entries));
+        };
 
         encode_vec.extend(to_u8_vec_macro!(u16, &count_entries, &data.get_endian()).iter());
 
-- 
2.43.0

