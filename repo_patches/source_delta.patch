From 024a40740c0165375c7fe6736bef6800ad30ddba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 01/14] fix: do not print debugging output to stdout when
 decoding from bytes

---
 dash7/src/utils.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index f128b14..4bb7a54 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -73,11 +73,6 @@ where
         reader.skip_bits(input.1)?;
     }
     let value = T::from_reader_with_ctx(&mut reader, ctx)?;
-    println!(
-        "value {:?}, reader.bits_read {:?}  {:?}",
-        value, reader.bits_read, input
-    );
-
     Ok((pad_rest(input, reader.bits_read), value))
 }
 
-- 
2.43.0


From 47965ad3c6d0fb8e9b56c0a8de100355865489d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 02/14] fix: report the remaining input correctly after
 decoding an action or command

---
 dash7/src/app/action.rs  |  3 +++
 dash7/src/app/command.rs | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/dash7/src/app/action.rs b/dash7/src/app/action.rs
index ca76d17..096b528 100644
--- a/dash7/src/app/action.rs
+++ b/dash7/src/app/action.rs
@@ -170,6 +170,9 @@ impl<'a> DekuReader<'a, ()> for Action {
         // seek back to the beginning (1 byte)
         let _ = reader.seek_relative(-1); // TODO process err
 
+        // seeking does not undo the bit count, and this byte is read again below
+        reader.bits_read -= u8::BITS as usize;
+
         // // Read the preamble and pass it on as context values
         // let preamble = (<u8 as DekuReader<'_, _>>::from_reader_with_ctx(
         //     reader,
diff --git a/dash7/src/app/command.rs b/dash7/src/app/command.rs
index 1a9a54c..af0d648 100644
--- a/dash7/src/app/command.rs
+++ b/dash7/src/app/command.rs
@@ -50,10 +50,18 @@ impl<'a> DekuReader<'a, u32> for Command {
             })
         };
 
-        while valid_length(reader, length)? && !reader.end() {
+        while valid_length(reader, length)? {
             if let Some(Action::IndirectForward(_)) = command.actions.last() {
                 return Ok(command);
             }
+
+            // checking for the end counts the byte it peeks at, but reading the action counts it too
+            let bits_read = reader.bits_read;
+            if reader.end() {
+                break;
+            }
+            reader.bits_read = bits_read;
+
             let action = Action::from_reader_with_ctx(reader, ())?;
             command.actions.push(action);
         }
-- 
2.43.0


From ffef52b29ba1d09f700525efd039b7a20028f1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 03/14] fix: do not read a mask that is not present in a string
 token search query

---
 dash7/src/app/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/query.rs b/dash7/src/app/query.rs
index ec18d0c..7f84175 100644
--- a/dash7/src/app/query.rs
+++ b/dash7/src/app/query.rs
@@ -228,7 +228,7 @@ pub struct StringTokenSearch {
     #[deku(update = "self.value.len()")]
     pub length: Length,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", count = "length", endian = "big")]
     pub mask: Vec<u8>,
 
     #[deku(count = "length", endian = "big")]
-- 
2.43.0


From 7e2353fb0af1020e674076b0d054be83388fb9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 04/14] fix: classify the unknown error status code as an error

---
 dash7/src/app/operation/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/operation/mod.rs b/dash7/src/app/operation/mod.rs
index dba834a..b66ff28 100644
--- a/dash7/src/app/operation/mod.rs
+++ b/dash7/src/app/operation/mod.rs
@@ -47,7 +47,7 @@ impl StatusCode {
 
 impl StatusCode {
     pub fn is_err(&self) -> bool {
-        *self > StatusCode(0x80)
+        *self >= StatusCode(0x80)
     }
 }
 
-- 
2.43.0


From 935e5b77c07e845aa1b9feb99ac1226e0c59fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 05/14] fix: align the opcode of the transmission status action

---
 dash7/src/app/interface_final.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/app/interface_final.rs b/dash7/src/app/interface_final.rs
index 95a93d4..6c45ed1 100644
--- a/dash7/src/app/interface_final.rs
+++ b/dash7/src/app/interface_final.rs
@@ -97,7 +97,7 @@ pub enum TxStatusType {
 #[derive(DekuRead, DekuWrite, Debug, Clone, PartialEq)]
 #[deku(ctx = "_opcode: OpCode")]
 pub struct TxStatusOperation {
-    #[deku(update = "self.status.deku_id().unwrap()", pad_bits_after = "6")]
+    #[deku(update = "self.status.deku_id().unwrap()")]
     status_type: TxStatusType,
 
     #[deku(writer = "_opcode.to_writer(deku::writer, ())")]
-- 
2.43.0


From 533b60ad57127d270d4bd6c5cf96076308a4a07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:07 +0000
Subject: [PATCH 06/14] fix: report a too large mantissa as such when
 decompressing a VarInt

---
 dash7/src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7/src/types.rs b/dash7/src/types.rs
index d46fecc..f5b6f0b 100644
--- a/dash7/src/types.rs
+++ b/dash7/src/types.rs
@@ -76,7 +76,7 @@ impl VarInt {
         }
 
         if mantissa & 0b11100000 > 0 {
-            return Err(VarIntError::ExponentTooLarge(mantissa));
+            return Err(VarIntError::MantissaTooLarge(mantissa));
         }
 
         Ok(4u32.pow(exponent as u32) * mantissa as u32)
-- 
2.43.0


From 937dedbd80b2200faf1548389ba42247b30285c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:33 +0000
Subject: [PATCH 07/14] fix: strip the zero padding of fixed length strings
 when reading them

---
 dash7/src/utils.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index 4bb7a54..7a2894c 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -139,7 +139,12 @@ pub fn read_string<R, const N: usize>(reader: &mut Reader<R>) -> Result<String,
 where
     R: Read + Seek,
 {
-    let value = Vec::<u8>::from_reader_with_ctx(reader, Limit::new_byte_size(ByteSize(N)))?;
+    let mut value = Vec::<u8>::from_reader_with_ctx(reader, Limit::new_byte_size(ByteSize(N)))?;
+
+    // shorter strings are padded with zeros when written
+    while value.last() == Some(&0) {
+        value.pop();
+    }
 
     String::from_utf8(value).map_err(|err| {
         DekuError::Parse(Cow::Owned(
-- 
2.43.0


From aa46da1e99f7c87d989081d6667b7ea8008708e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:33 +0000
Subject: [PATCH 08/14] fix: show the contents of files without a known
 structure in the cli

---
 dash7-cli/src/parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dash7-cli/src/parse.rs b/dash7-cli/src/parse.rs
index fbe8d8b..cd37019 100644
--- a/dash7-cli/src/parse.rs
+++ b/dash7-cli/src/parse.rs
@@ -59,7 +59,7 @@ fn parse_serial(_input: &[u8]) -> Result<(), DekuError> {
 }
 
 fn parse_file(input: &[u8], file_id: FileId) -> Result<(), DekuError> {
-    let file = File::from_bytes((input, 0), file_id, 0)?;
+    let file = File::from_bytes((input, 0), file_id, input.len() as u32)?;
     println!("{:?}", file);
     Ok(())
 }
-- 
2.43.0


From 94b5ce3706a4efa805f658a400dce1b09870c76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:49 +0000
Subject: [PATCH 09/14] fix: a command ending in a length of several bytes was
 rejected as incomplete

---
 dash7/src/app/command.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dash7/src/app/command.rs b/dash7/src/app/command.rs
index af0d648..8d384a9 100644
--- a/dash7/src/app/command.rs
+++ b/dash7/src/app/command.rs
@@ -6,7 +6,7 @@ use std::fmt::{self, Display};
 use alloc::fmt;
 
 use deku::{
-    no_std_io::{self, Cursor, Seek},
+    no_std_io::{self, Cursor, Seek, SeekFrom},
     prelude::*,
 };
 
@@ -55,6 +55,14 @@ impl<'a> DekuReader<'a, u32> for Command {
                 return Ok(command);
             }
 
+            // a field of several bytes that started within a byte leaves an empty remainder behind,
+            // which would count as more data: seeking discards it
+            if reader.rest().is_empty() {
+                reader
+                    .seek(SeekFrom::Current(0))
+                    .map_err(|err| DekuError::Io(err.kind()))?;
+            }
+
             // checking for the end counts the byte it peeks at, but reading the action counts it too
             let bits_read = reader.bits_read;
             if reader.end() {
-- 
2.43.0


From 1fd959dc930a0bb409471e9846ff812ca0f74a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 10/14] fix: skip any number of leading bits instead of
 panicking beyond 128 bytes

---
 dash7/src/utils.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index 7a2894c..c216528 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -44,6 +44,19 @@ pub fn pad_rest<'a>(rest: (&'a [u8], usize), bits_read: usize) -> (&'a [u8], usi
     (&rest.0[idx..], bits_read % 8)
 }
 
+/// Skip any number of bits. `Reader::skip_bits` panics on more than it can hold at once.
+fn skip_bits<R>(reader: &mut Reader<R>, mut amt: usize) -> Result<(), DekuError>
+where
+    R: Read + Seek,
+{
+    while amt > 0 {
+        let step = cmp::min(amt, 128);
+        reader.skip_bits(step)?;
+        amt -= step;
+    }
+    Ok(())
+}
+
 pub fn from_reader<'a, R, T, Ctx>(
     input: (&'a mut R, usize),
     ctx: Ctx,
@@ -53,9 +66,7 @@ where
     R: Read + Seek,
 {
     let reader = &mut Reader::new(input.0);
-    if input.1 != 0 {
-        reader.skip_bits(input.1)?;
-    }
+    skip_bits(reader, input.1)?;
     let value = T::from_reader_with_ctx(reader, ctx)?;
     Ok((reader.bits_read, value))
 }
@@ -69,9 +80,7 @@ where
 {
     let mut cursor = Cursor::new(input.0);
     let mut reader = &mut Reader::new(&mut cursor);
-    if input.1 != 0 {
-        reader.skip_bits(input.1)?;
-    }
+    skip_bits(reader, input.1)?;
     let value = T::from_reader_with_ctx(&mut reader, ctx)?;
     Ok((pad_rest(input, reader.bits_read), value))
 }
-- 
2.43.0


From fffe01ca6584918401bb97dd81507ac2eefd746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 11/14] fix: a failing stream was taken for one with more
 actions, without end

---
 dash7/src/app/command.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/dash7/src/app/command.rs b/dash7/src/app/command.rs
index 8d384a9..7967c33 100644
--- a/dash7/src/app/command.rs
+++ b/dash7/src/app/command.rs
@@ -61,14 +61,19 @@ impl<'a> DekuReader<'a, u32> for Command {
                 reader
                     .seek(SeekFrom::Current(0))
                     .map_err(|err| DekuError::Io(err.kind()))?;
-            }
 
-            // checking for the end counts the byte it peeks at, but reading the action counts it too
-            let bits_read = reader.bits_read;
-            if reader.end() {
-                break;
+                // `Reader::end` takes a failing stream for one that has more to read
+                let bits_read = reader.bits_read;
+                match u8::from_reader_with_ctx(reader, ()) {
+                    Ok(_) => {}
+                    Err(DekuError::Incomplete(_)) => break,
+                    Err(err) => return Err(err),
+                }
+                reader
+                    .seek(SeekFrom::Current(-1))
+                    .map_err(|err| DekuError::Io(err.kind()))?;
+                reader.bits_read = bits_read;
             }
-            reader.bits_read = bits_read;
 
             let action = Action::from_reader_with_ctx(reader, ())?;
             command.actions.push(action);
-- 
2.43.0


From de572359a3350596bf0d5573b6c5fa6a4eb1a859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:26 +0000
Subject: [PATCH 12/14] fix: a failing seek made the next byte the header of an
 action

---
 dash7/src/app/action.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dash7/src/app/action.rs b/dash7/src/app/action.rs
index 096b528..48493f4 100644
--- a/dash7/src/app/action.rs
+++ b/dash7/src/app/action.rs
@@ -168,7 +168,9 @@ impl<'a> DekuReader<'a, ()> for Action {
         let code = <OpCode as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
 
         // seek back to the beginning (1 byte)
-        let _ = reader.seek_relative(-1); // TODO process err
+        reader
+            .seek_relative(-1)
+            .map_err(|err| DekuError::Io(err.kind()))?;
 
         // seeking does not undo the bit count, and this byte is read again below
         reader.bits_read -= u8::BITS as usize;
-- 
2.43.0


From 3f518f8843e054ef4a75275bed15719b83a056ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:06 +0000
Subject: [PATCH 13/14] fix: an announced length made the decoder reserve that
 much memory

---
 dash7/src/app/query.rs               | 15 ++++++++-------
 dash7/src/file/mod.rs                |  4 ++--
 dash7/src/session/interface_final.rs |  6 +++---
 dash7/src/session/mod.rs             |  4 ++--
 dash7/src/utils.rs                   | 12 ++++++++++++
 5 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/dash7/src/app/query.rs b/dash7/src/app/query.rs
index 7f84175..f3b37b5 100644
--- a/dash7/src/app/query.rs
+++ b/dash7/src/app/query.rs
@@ -1,6 +1,7 @@
 use deku::prelude::*;
 
 use super::operation::{FileOffset, Length};
+use crate::utils::read_bytes;
 
 #[derive(DekuRead, DekuWrite, Default, Debug, Clone, PartialEq)]
 #[deku(bits = 3, id_type = "u8")]
@@ -86,7 +87,7 @@ pub struct ComparisonWithZero {
     #[deku(update = "self.mask.len()")]
     length: Length,
 
-    #[deku(cond = "*mask_present", count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", reader = "read_bytes(deku::reader, (*length).into())")]
     pub mask: Vec<u8>,
     pub file: FileOffset,
 }
@@ -114,10 +115,10 @@ pub struct ComparisonWithValue {
     #[deku(update = "self.value.len()")]
     length: Length,
 
-    #[deku(cond = "*mask_present", count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", reader = "read_bytes(deku::reader, (*length).into())")]
     pub mask: Vec<u8>,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(reader = "read_bytes(deku::reader, (*length).into())")]
     pub value: Vec<u8>,
 
     pub file: FileOffset,
@@ -149,7 +150,7 @@ pub struct ComparisonWithOtherFile {
     pub params: ArithmeticQueryParams,
 
     pub length: Length,
-    #[deku(cond = "*mask_present", count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", reader = "read_bytes(deku::reader, (*length).into())")]
     pub mask: Vec<u8>,
 
     pub file1: FileOffset,
@@ -189,7 +190,7 @@ pub struct BitmapRangeComparison {
     pub start: Length,
     pub stop: Length,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(reader = "read_bytes(deku::reader, (*length).into())")]
     pub mask: Vec<u8>,
     pub file: FileOffset,
 }
@@ -228,10 +229,10 @@ pub struct StringTokenSearch {
     #[deku(update = "self.value.len()")]
     pub length: Length,
 
-    #[deku(cond = "*mask_present", count = "length", endian = "big")]
+    #[deku(cond = "*mask_present", reader = "read_bytes(deku::reader, (*length).into())")]
     pub mask: Vec<u8>,
 
-    #[deku(count = "length", endian = "big")]
+    #[deku(reader = "read_bytes(deku::reader, (*length).into())")]
     pub value: Vec<u8>,
 
     pub file: FileOffset,
diff --git a/dash7/src/file/mod.rs b/dash7/src/file/mod.rs
index 23bee7a..07e53de 100644
--- a/dash7/src/file/mod.rs
+++ b/dash7/src/file/mod.rs
@@ -22,7 +22,7 @@ pub use security_key::SecurityKey;
 
 use crate::{
     network::{Address, AddressType},
-    utils::from_bytes,
+    utils::{from_bytes, read_bytes},
 };
 
 #[derive(DekuRead, DekuWrite, Debug, Clone, PartialEq)]
@@ -202,7 +202,7 @@ pub enum File {
     NwlSecurityKey(SecurityKey),
 
     #[deku(id_pat = "_")]
-    Other(#[deku(count = "length")] Vec<u8>),
+    Other(#[deku(reader = "read_bytes(deku::reader, length)")] Vec<u8>),
 }
 
 impl Default for File {
diff --git a/dash7/src/session/interface_final.rs b/dash7/src/session/interface_final.rs
index fd7d57f..61606d6 100644
--- a/dash7/src/session/interface_final.rs
+++ b/dash7/src/session/interface_final.rs
@@ -1,6 +1,6 @@
 use deku::prelude::*;
 
-use crate::{network::Addressee, physical::Channel};
+use crate::{network::Addressee, physical::Channel, utils::read_bytes};
 
 #[derive(DekuRead, DekuWrite, Debug, Clone, PartialEq)]
 #[deku(ctx = "interface_id: u8, length: u32", id = "interface_id")]
@@ -9,7 +9,7 @@ pub enum InterfaceFinalStatus {
     Dash7(InterfaceFinalStatusCode),
 
     #[deku(id_pat = "_")]
-    Other(#[deku(count = "length")] Vec<u8>),
+    Other(#[deku(reader = "read_bytes(deku::reader, length)")] Vec<u8>),
 }
 
 #[derive(DekuRead, DekuWrite, Debug, Clone, PartialEq)]
@@ -70,7 +70,7 @@ pub enum InterfaceTxStatus {
     Dash7(Dash7InterfaceTxStatus),
 
     #[deku(id_pat = "_")]
-    Other(#[deku(count = "length")] Vec<u8>),
+    Other(#[deku(reader = "read_bytes(deku::reader, length)")] Vec<u8>),
 }
 
 #[derive(DekuRead, DekuWrite, Debug, Clone, PartialEq)]
diff --git a/dash7/src/session/mod.rs b/dash7/src/session/mod.rs
index 348b6f3..85c881e 100644
--- a/dash7/src/session/mod.rs
+++ b/dash7/src/session/mod.rs
@@ -3,7 +3,7 @@ use std::fmt::Display;
 
 use deku::prelude::*;
 
-use crate::{network::Addressee, physical::Channel, types::VarInt};
+use crate::{network::Addressee, physical::Channel, types::VarInt, utils::read_bytes};
 
 #[cfg(feature = "_wizzilab")]
 mod interface_final;
@@ -160,7 +160,7 @@ pub enum InterfaceStatus {
     Dash7(Dash7InterfaceStatus),
 
     #[deku(id = "InterfaceType::Unknown")]
-    Other(#[deku(count = "length")] Vec<u8>),
+    Other(#[deku(reader = "read_bytes(deku::reader, length)")] Vec<u8>),
 }
 
 #[cfg(feature = "std")]
diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index c216528..e28196a 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -143,6 +143,18 @@ where
     Ok(())
 }
 
+/// Read as many bytes as announced, making room for them only as they arrive
+pub fn read_bytes<R>(reader: &mut Reader<R>, length: u32) -> Result<Vec<u8>, DekuError>
+where
+    R: Read + Seek,
+{
+    let mut bytes = Vec::new();
+    for _ in 0..length {
+        bytes.push(u8::from_reader_with_ctx(reader, ())?);
+    }
+    Ok(bytes)
+}
+
 /// Read and convert to String
 pub fn read_string<R, const N: usize>(reader: &mut Reader<R>) -> Result<String, DekuError>
 where
-- 
2.43.0


From 24646dc112f8888ac2495700b6f60074404e931c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:36 +0000
Subject: [PATCH 14/14] fix: a failed read of an array dropped what lies behind
 its elements

---
 dash7/src/utils.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dash7/src/utils.rs b/dash7/src/utils.rs
index e28196a..e8cb6a1 100644
--- a/dash7/src/utils.rs
+++ b/dash7/src/utils.rs
@@ -210,7 +210,6 @@ where
     for i in 0..N {
         let value = <T as DekuReader<'_, _>>::from_reader_with_ctx(reader, ())?;
         data[i].write(value);
-        unsafe { transient_dropper.base_ptr = transient_dropper.base_ptr.add(1) };
         transient_dropper.initialized_count += 1;
     }
 
-- 
2.43.0

