From 756ccede7e289dd50b48cf4a72a80af640d50adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:52 +0000
Subject: [PATCH 01/22] fix: ByteWeights iterators yielded byte 0 twice when
 byte 255 was absent

---
 huff_coding/src/weights.rs | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/huff_coding/src/weights.rs b/huff_coding/src/weights.rs
index 2edb2f6..df95eec 100644
--- a/huff_coding/src/weights.rs
+++ b/huff_coding/src/weights.rs
@@ -397,18 +397,14 @@ pub mod byte_weights{
         type Item = (u8, usize);
 
         fn next(&mut self) -> Option<Self::Item>{
+            while self.current_index < 256 && self.weights.get(&(self.current_index as u8)).is_none(){
+                self.current_index += 1
+            }
             if self.current_index == 256{
                 return None
             }
-
-            while self.weights.get(&(self.current_index as u8)).is_none(){
-                if self.current_index == 256{
-                    return None
-                }
-                self.current_index += 1
-            }
             let entry = Some((self.current_index as u8, *self.weights.get(&(self.current_index as u8)).unwrap()));
-            if self.current_index != 256{self.current_index += 1;}
+            self.current_index += 1;
 
             entry
         }
@@ -424,18 +420,14 @@ pub mod byte_weights{
             type Item = (u8, usize);
     
             fn next(&mut self) -> Option<Self::Item>{
+                while self.current_index < 256 && self.weights.get(&(self.current_index as u8)).is_none(){
+                    self.current_index += 1
+                }
                 if self.current_index == 256{
                     return None
                 }
-    
-                while self.weights.get(&(self.current_index as u8)).is_none(){
-                    if self.current_index == 256{
-                        return None
-                    }
-                    self.current_index += 1
-                }
                 let entry = Some((self.current_index as u8, *self.weights.get(&(self.current_index as u8)).unwrap()));
-                if self.current_index != 256{self.current_index += 1;}
+                self.current_index += 1;
     
                 entry
             }
-- 
2.43.0


From a89b58ae968f596993c331d1155a34c4b5d7c6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:43 +0000
Subject: [PATCH 02/22] fix: ByteWeights::len and is_empty ignored weights set
 to 0 through get_mut

---
 huff_coding/src/weights.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/huff_coding/src/weights.rs b/huff_coding/src/weights.rs
index df95eec..8e79088 100644
--- a/huff_coding/src/weights.rs
+++ b/huff_coding/src/weights.rs
@@ -174,7 +174,6 @@ pub mod byte_weights{
     #[derive(Clone, Copy, Eq)]
     pub struct ByteWeights{
         weights: [usize; 256],
-        len: usize,
     }
 
     impl Weights<u8> for ByteWeights{
@@ -245,7 +244,6 @@ pub mod byte_weights{
         pub fn new() -> Self{
             Self{
                 weights: [0;256],
-                len: 0,
             }
         }
 
@@ -265,16 +263,13 @@ pub mod byte_weights{
         pub fn from_bytes(bytes: &[u8]) -> Self{
             // count bytes into an array
             let mut weights: [usize; 256] = [0;256];
-            let mut len = 0;
 
             for byte in bytes{
-                if weights[*byte as usize] == 0{len += 1;}
                 weights[*byte as usize] += 1;
             }
  
             ByteWeights{
                 weights,
-                len,
             }
         }
 
@@ -340,12 +335,13 @@ pub mod byte_weights{
 
         /// Return the number of different counted bytes stored in the `ByteWeights`
         pub fn len(&self) -> usize{
-            self.len
+            // a weight can be set to 0 through get_mut, which makes its byte absent
+            self.weights.iter().filter(|weight| **weight != 0).count()
         }
 
         /// Return true if len == 0
         pub fn is_empty(&self) -> bool{
-            self.len == 0
+            self.weights.iter().all(|weight| *weight == 0)
         }
 
         /// Returns an iterator over the bytes to their weights `(u8, usize)`
@@ -380,7 +376,6 @@ pub mod byte_weights{
                     }
                     None =>{
                         self.weights[b as usize] = f;
-                        self.len += 1;
                     }
                 }
             }
-- 
2.43.0


From aa863c56035cd97f6f2710378f6ff9dbb15acace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:46 +0000
Subject: [PATCH 03/22] fix: CompressData::try_from_bytes panicked on a short
 tree length, large padding or missing data

---
 huff_coding/src/comp.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/huff_coding/src/comp.rs b/huff_coding/src/comp.rs
index 8df8a99..5236069 100644
--- a/huff_coding/src/comp.rs
+++ b/huff_coding/src/comp.rs
@@ -143,6 +143,9 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
         let padding_bits = bytes_try_get![0; "slice is empty"]?;
         let tree_padding_bits =  padding_bits >> 4;
         let data_padding_bits = padding_bits & 0b0000_1111;
+        if data_padding_bits > 7{
+            return Err(CompressedDataFromBytesError::new("stored padding bits cannot be larger than 7"))
+        }
 
         // read 4 bytes of tree length
         let tree_len = u32::from_be_bytes(
@@ -151,7 +154,7 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
             .unwrap()
         ) as usize;
         if tree_len < 2{
-            panic!("stored tree length must be at least 2");
+            return Err(CompressedDataFromBytesError::new("stored tree length must be at least 2"))
         } 
 
         // read the tree
@@ -176,8 +179,13 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
                 )
             };
 
+        let comp_bytes = bytes_try_get![5 + tree_len..; "slice does not contain compressed data"]?;
+        if comp_bytes.is_empty(){
+            return Err(CompressedDataFromBytesError::new("slice does not contain compressed data"))
+        }
+
         Ok(CompressData::new(
-            bytes_try_get![5 + tree_len..; "slice does not contain compressed data"]?.to_vec(), 
+            comp_bytes.to_vec(), 
             data_padding_bits,
             tree
         ))
-- 
2.43.0


From ba597e76a420bd3f2e8ebd12ad25496b363e9736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:49 +0000
Subject: [PATCH 04/22] fix: HuffTree::try_from_bin panicked on letter bytes
 the letter type refuses

---
 huff_coding/src/tree/tree_inner.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/huff_coding/src/tree/tree_inner.rs b/huff_coding/src/tree/tree_inner.rs
index e2844ca..56fc9e8 100644
--- a/huff_coding/src/tree/tree_inner.rs
+++ b/huff_coding/src/tree/tree_inner.rs
@@ -567,10 +567,13 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
                     else{bit_ptr -= 1};
                 }
                 
+                // create letter from letter_bytes, if they're not a valid letter return Err
+                let letter = L::try_from_be_bytes(&letter_bytes).map_err(|_| FromBinError::new(
+                    "Provided BitVec contains an invalid letter for an encoded HuffTree",
+                ))?;
                 // create letter branch (no children)
                 let branch = HuffBranch::new(
-                    // create letter from letter_bytes
-                    HuffLeaf::new(Some(L::try_from_be_bytes(&letter_bytes).unwrap()), 0),
+                    HuffLeaf::new(Some(letter), 0),
                     None,
                 );
                 Ok(branch)
-- 
2.43.0


From b626a55439778300c95d1c43de86368d5b2d112b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:52 +0000
Subject: [PATCH 05/22] fix: HuffTree::try_from_bin overflowed the stack on
 deeply nested bits

---
 huff_coding/src/tree/tree_inner.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/huff_coding/src/tree/tree_inner.rs b/huff_coding/src/tree/tree_inner.rs
index 56fc9e8..357143d 100644
--- a/huff_coding/src/tree/tree_inner.rs
+++ b/huff_coding/src/tree/tree_inner.rs
@@ -520,11 +520,21 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
     /// [branch]:crate::tree::branch::HuffBranch
     /// [letter_bytes]:crate::tree::letter::HuffLetterAsBytes
     pub fn try_from_bin(bin: BitVec<Msb0, u8>) -> Result<Self, FromBinError<L>>{
+        /// How deep the encoded branches can be nested, a tree built from weights
+        /// counted in memory is always far shallower
+        const MAX_DEPTH: usize = 1024;
+
         /// Recursively reads branches and their children from the given bits
         /// When finding a 1 -> recurses to get children,
         /// and when a 0 -> ends recursion returning a letter branch
-        fn read_branches_from_bits<L: HuffLetterAsBytes>(bits: &mut bitvec::slice::IterMut<Msb0, u8>) -> 
+        fn read_branches_from_bits<L: HuffLetterAsBytes>(bits: &mut bitvec::slice::IterMut<Msb0, u8>, depth: usize) -> 
         Result<HuffBranch<L>, FromBinError<L>>{
+            // malformed bits (e.g. a long run of 1s) must not overflow the stack
+            if depth > MAX_DEPTH{
+                return Err(FromBinError::new(
+                    "Provided BitVec is nested too deeply for an encoded HuffTree"
+                ))
+            }
             // check whether the bit can be popped at all, if not return Err
             // remove first bit, if its 1 -> joint branch
             if if let Some(bit) = bits.next(){*bit}
@@ -537,8 +547,8 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
                 let branch = HuffBranch::new(
                     HuffLeaf::new(None, 0),
                     Some(( 
-                        read_branches_from_bits(bits)?, 
-                        read_branches_from_bits(bits)?
+                        read_branches_from_bits(bits, depth + 1)?, 
+                        read_branches_from_bits(bits, depth + 1)?
                     ))
                 );
                 Ok(branch)
@@ -583,7 +593,7 @@ impl<L: HuffLetterAsBytes> HuffTree<L>{
         let mut bin = bin;
         // recurse to create root, and set codes for all branches
         let mut bin_iter_mut = bin.iter_mut();
-        let mut root = read_branches_from_bits(&mut bin_iter_mut)?;
+        let mut root = read_branches_from_bits(&mut bin_iter_mut, 0)?;
 
         // return Err if not all bits used
         if bin_iter_mut.next().is_some(){
-- 
2.43.0


From 8374366d97b3d4049d48d9402ca11ffe5a482db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 06/22] fix: huff wrote corrupt archives when the file spanned
 several blocks

---
 huff/src/comp.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 1b326dd..93d7a0d 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -187,16 +187,23 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
     macro_rules! comp_data_from {
         ($buf:expr) => {{
             // get and own the compress data
-            let (mut comp_bytes, padding_bits, huff_tree) = 
+            let (mut comp_bytes, mut padding_bits, huff_tree) = 
                 compress_with_tree($buf, tree.clone())
                 .unwrap()
                 .into_inner();
             // if the previous compress data's padding isn't 0
             // write the comp_bytes minding the padding
             if prev_padding != 0{
-                writer.seek(SeekFrom::Current(-1)).unwrap();
+                writer.seek(SeekFrom::Current(-1))?;
 
-                comp_bytes = utils::offset_bytes(&comp_bytes, prev_padding as usize);
+                // the prev_byte's used bits come first, so the padding
+                // has to be calculated anew for all the bits combined
+                let prev_bits = 8 - prev_padding as usize;
+                let bit_count = prev_bits + comp_bytes.len() * 8 - padding_bits as usize;
+                padding_bits = utils::calc_padding_bits(bit_count);
+
+                comp_bytes = utils::offset_bytes(&comp_bytes, prev_bits);
+                comp_bytes.truncate((bit_count + padding_bits as usize) / 8);
                 comp_bytes[0] |= prev_byte
             }
 
-- 
2.43.0


From 0b420368780d3c40ef1ea8b2496f20ca8a8b3178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:14 +0000
Subject: [PATCH 07/22] fix: huff -d decoded padding bits when the data was a
 multiple of the block size, and took read errors for the end of the file

---
 huff/src/comp.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 93d7a0d..e23a73f 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -265,23 +265,21 @@ fn decompress_to_writer<R: Read, W: Write>(
             }
         };
     }
-    // try to read exactly buf.len() bytes, decompressing them and writing
-    while reader.read_exact(buf).is_ok(){
-        for byte in &buf[..]{
+    // read at most buf.len() bytes at a time, decompressing them and writing
+    while *reader_bytes_left > 0{
+        let block_len = buf.len().min(*reader_bytes_left);
+        reader.read_exact(&mut buf[..block_len])?;
+        *reader_bytes_left -= block_len;
+
+        for byte in &buf[..block_len - 1]{
             read_codes_in_byte!(byte;[0..8]);
         }
+        // only the very last byte contains the padding bits
+        let last_padding_bits = if *reader_bytes_left == 0{padding_bits} else{0};
+        read_codes_in_byte!(buf[block_len - 1];[0..8 - last_padding_bits]);
+
         writer.write_all(&decomp_buf)?;
         decomp_buf.clear();
-        *reader_bytes_left -= buf.len();
-    }
-    // if couldn't read exactly buf.len() bytes and there are some bytes left, 
-    // decompress them minding the padding bits
-    if *reader_bytes_left > 0{
-        for byte in &buf[..*reader_bytes_left - 1]{
-            read_codes_in_byte!(byte;[0..8]);
-        }
-        read_codes_in_byte!(buf[*reader_bytes_left - 1];[0..8 - padding_bits]);
-        writer.write_all(&decomp_buf)?;
     }
     Ok(())
 }
-- 
2.43.0


From b56187e29c9c8cc3d002171c4a8b089774ad1c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:16 +0000
Subject: [PATCH 08/22] fix: huff took read errors for the end of the file and
 reported success

---
 huff/src/comp.rs | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index e23a73f..bea5697 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -43,7 +43,7 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     let mut buf = vec![0; block_size];
 
     // create a HuffTree from the src file bytes
-    let tree = huff_tree_from_reader(&mut reader, &mut src_bytes_left.clone(), &mut buf);
+    let tree = huff_tree_from_reader(&mut reader, &mut src_bytes_left.clone(), &mut buf)?;
     let tree_bin = tree.as_bin();
     let tree_bin_padding = utils::calc_padding_bits(tree_bin.len());
     let tree_bin_bytes = tree_bin.into_vec();
@@ -158,17 +158,16 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
 
 /// Read bytes from reader, loading at most buf.len() bytes
 /// from it at one time, building a HuffTree from them
-pub fn huff_tree_from_reader<R: Read>(reader: &mut R, reader_bytes_left: &mut usize, buf: &mut [u8]) -> HuffTree<u8>{
+pub fn huff_tree_from_reader<R: Read>(reader: &mut R, reader_bytes_left: &mut usize, buf: &mut [u8]) -> Result<HuffTree<u8>, Error>{
     let mut bw = ByteWeights::new();
-    while reader.read_exact(buf).is_ok(){
-        bw += ByteWeights::threaded_from_bytes(&buf, 12);
-        *reader_bytes_left -= buf.len();
-    }
-    if *reader_bytes_left > 0{
-        bw += ByteWeights::threaded_from_bytes(&buf[..*reader_bytes_left], 12);
+    while *reader_bytes_left > 0{
+        let block_len = buf.len().min(*reader_bytes_left);
+        reader.read_exact(&mut buf[..block_len])?;
+        bw += ByteWeights::threaded_from_bytes(&buf[..block_len], 12);
+        *reader_bytes_left -= block_len;
     }
 
-    HuffTree::from_weights(bw)
+    Ok(HuffTree::from_weights(bw))
 }
 
 /// Read bytes from reader, loading at most buf.len() bytes
@@ -210,23 +209,19 @@ fn compress_to_writer<R: Read, W: Write + Seek>(
             (comp_bytes, padding_bits, huff_tree)
         }};
     }
-    // try to read exactly buf.len() bytes, compressing them and repeating
-    while reader.read_exact(buf).is_ok(){
-        let (comp_bytes, padding_bits, huff_tree) =  comp_data_from!(&buf);
+    // read at most buf.len() bytes at a time, compressing them and repeating
+    while *reader_bytes_left > 0{
+        let block_len = buf.len().min(*reader_bytes_left);
+        reader.read_exact(&mut buf[..block_len])?;
+
+        let (comp_bytes, padding_bits, huff_tree) =  comp_data_from!(&buf[..block_len]);
         writer.write_all(&comp_bytes)?;
         
         prev_padding = padding_bits;
         prev_byte = comp_bytes[comp_bytes.len() - 1];
         tree = huff_tree;
 
-        *reader_bytes_left -= buf.len();
-    }
-    // if couldn't read exactly buf.len() bytes and there are some bytes left, compress them
-    if *reader_bytes_left > 0{
-        let (comp_bytes, padding_bits, _) =  comp_data_from!(&buf[..*reader_bytes_left]);
-        writer.write_all(&comp_bytes)?;
-
-        prev_padding = padding_bits;
+        *reader_bytes_left -= block_len;
     }
 
     // return the written compressed data's padding bits
-- 
2.43.0


From 46be0d5786a0ed01274eeca528e9703bc48ce8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:19 +0000
Subject: [PATCH 09/22] fix: huff -d failed when the block size was smaller
 than the header or the tree, or on a short read

---
 huff/src/comp.rs | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index bea5697..899bde9 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -80,7 +80,7 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     // read from src file
     let src = File::open(src_path)?;
     let mut src_bytes_left = src.metadata().unwrap().len() as usize;
-    let reader = BufReader::new(src);
+    let mut reader = BufReader::new(src);
 
     // write to dst file
     let dst = File::create(dst_path)?;
@@ -90,18 +90,19 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     let mut buf = vec![0; block_size];
 
     // read only first 5 bytes
-    let mut reader = reader.take(5);
-    let bytes_read = reader.read(&mut buf)?;
-    if bytes_read < 5{
+    // (the header may be larger than a block, so it's not read into buf)
+    let mut header = [0; 5];
+    if src_bytes_left < header.len(){
         return Err(Error::new(
             format!("{:?} too short to decompress, missing header information", src_path),
             ErrorKind::MissingHeaderInfo
         ))
     }
-    src_bytes_left -= 5;
+    reader.read_exact(&mut header)?;
+    src_bytes_left -= header.len();
 
     // read padding info from the first byte
-    let padding = buf[0];
+    let padding = header[0];
     let tree_padding_bits =  padding >> 4;
     let data_padding_bits = padding & 0b0000_1111;
     if tree_padding_bits > 7 || data_padding_bits > 7{
@@ -112,28 +113,25 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     }
     // read tree_bin's length
     let tree_len = u32::from_be_bytes(
-        buf[1..5]
+        header[1..5]
         .try_into()
         .unwrap()
     ) as usize;
     
     // read only next tree_len bytes
-    reader.set_limit(tree_len as u64);
-    let bytes_read = reader.read(&mut buf)?;
-    if bytes_read < tree_len{
+    if src_bytes_left < tree_len{
         return Err(Error::new(
             format!("{:?} too short to decompress, missing header information", src_path),
             ErrorKind::MissingHeaderInfo
         ))
     }
+    let mut tree_bytes = vec![0; tree_len];
+    reader.read_exact(&mut tree_bytes)?;
     src_bytes_left -= tree_len;
 
     // read the HuffTree
     let tree = match huff_coding::prelude::HuffTree::<u8>::try_from_bin({
-        let mut b = huff_coding::bitvec::prelude::BitVec::from_vec(
-            buf[..tree_len]
-            .to_vec()
-        );
+        let mut b = huff_coding::bitvec::prelude::BitVec::from_vec(tree_bytes);
         for _ in 0..tree_padding_bits{b.pop();}
         b
     }){
@@ -145,7 +143,6 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     };
 
     // decompress the remaining bytes
-    let mut reader = reader.into_inner();
     decompress_to_writer(
         &mut reader, &mut writer, 
         &mut src_bytes_left, &mut buf,
-- 
2.43.0


From fb859d65fd8c568e384db6629e106c8ced24854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:08 +0000
Subject: [PATCH 10/22] fix: huff panicked or hung on block sizes overflowing a
 machine word

---
 huff/src/cli.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 54ecb39..61d75ce 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -96,7 +96,7 @@ macro_rules! parse_block_size {
         };
         
         mult.push_str(&chars.collect::<String>());
-        num * match &mult[..]{
+        let mult: usize = match &mult[..]{
             "" => 1,
             "k" => 1_000,
             "m" => 1_000_000,
@@ -109,6 +109,14 @@ macro_rules! parse_block_size {
                     String::from("Invalid block size"), 
                     ErrorKind::InvalidInput
                 )),
+        };
+        match num.checked_mul(mult){
+            Some(block_size) => block_size,
+            None =>
+                return Err(Error::new(
+                    String::from("Invalid block size"), 
+                    ErrorKind::InvalidInput
+                )),
         }
     }};
 }
-- 
2.43.0


From bb32f41c1bd1ea375bece2a66621ab44f51b190e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 11/22] fix: huff aborted on block sizes larger than the
 memory, whatever the size of the file

---
 huff/src/comp.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index 899bde9..d3be0a6 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -39,8 +39,8 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     let dst = File::create(dst_path)?;
     let mut writer = BufWriter::new(dst);
 
-    // allocate a u8 buffer of size == block_size
-    let mut buf = vec![0; block_size];
+    // allocate a u8 buffer of size == block_size (but not larger than the whole file)
+    let mut buf = vec![0; block_size.min(src_bytes_left)];
 
     // create a HuffTree from the src file bytes
     let tree = huff_tree_from_reader(&mut reader, &mut src_bytes_left.clone(), &mut buf)?;
@@ -86,8 +86,8 @@ pub fn read_decompress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size:
     let dst = File::create(dst_path)?;
     let mut writer = BufWriter::new(dst);
 
-    // allocate a u8 buffer of size == block_size
-    let mut buf = vec![0; block_size];
+    // allocate a u8 buffer of size == block_size (but not larger than the whole file)
+    let mut buf = vec![0; block_size.min(src_bytes_left)];
 
     // read only first 5 bytes
     // (the header may be larger than a block, so it's not read into buf)
-- 
2.43.0


From f724cb9ec97564d00b193c2beff3049f84e54c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 12/22] fix: huff panicked on an empty file, leaving an empty
 archive behind

---
 huff/src/comp.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/huff/src/comp.rs b/huff/src/comp.rs
index d3be0a6..782ee34 100644
--- a/huff/src/comp.rs
+++ b/huff/src/comp.rs
@@ -35,6 +35,14 @@ pub fn read_compress_write(src_path: &PathBuf, dst_path: &PathBuf, block_size: u
     let mut src_bytes_left = src.metadata().unwrap().len() as usize;
     let mut reader = BufReader::new(src);
 
+    // a HuffTree can't be built from no bytes
+    if src_bytes_left == 0{
+        return Err(Error::new(
+            format!("{:?} is empty", src_path),
+            ErrorKind::InvalidInput
+        ))
+    }
+
     // write to dst file
     let dst = File::create(dst_path)?;
     let mut writer = BufWriter::new(dst);
-- 
2.43.0


From f3ae2cdfacfa34f82d8af63952a830123df9eef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:16 +0000
Subject: [PATCH 13/22] fix: huff panicked on sources without a file name (.,
 .., /)

---
 huff/src/cli.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 61d75ce..becdffc 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -23,12 +23,6 @@ pub const EXTENSION: &str = "hff";
 
 macro_rules! parse_paths {
     ($src_path: expr, $dst_path:expr) =>{
-        // copy file name from src if none is provided
-        if $dst_path == Path::new("./SRC_FILE.hff"){
-            $dst_path.set_file_name("");
-            $dst_path.push(Path::new($src_path.file_name().unwrap()));
-        }
-
         // check if src is a file
         if $src_path.is_dir(){
             return Err(Error::new(
@@ -36,6 +30,21 @@ macro_rules! parse_paths {
                 ErrorKind::NotFile
             ))
         }
+
+        // copy file name from src if none is provided
+        if $dst_path == Path::new("./SRC_FILE.hff"){
+            match $src_path.file_name(){
+                Some(file_name) => {
+                    $dst_path.set_file_name("");
+                    $dst_path.push(Path::new(file_name));
+                }
+                None =>
+                    return Err(Error::new(
+                        format!("{:?} is not a file", $src_path), 
+                        ErrorKind::NotFile
+                    )),
+            }
+        }
     };
     (comp; $src_path: expr, $dst_path:expr) =>{
         parse_paths!($src_path, $dst_path);
-- 
2.43.0


From f170e8d4ff33e2a27c81805534a9454232627e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:19 +0000
Subject: [PATCH 14/22] fix: huff took the answer Y to its [Y/N] question for a
 no

---
 huff/src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index becdffc..37425fd 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -138,7 +138,7 @@ macro_rules! ask_replace {
 
             let mut yes_no = String::new();
             io::stdin().read_line(&mut yes_no)?;
-            if !yes_no.starts_with("y"){
+            if !yes_no.starts_with(&['y', 'Y'][..]){
                 return Ok(());
             }
             println!();
-- 
2.43.0


From 435bebe04eeb33aa422b98dbe187cc2f68436ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:22 +0000
Subject: [PATCH 15/22] fix: huff panicked on arguments that are not valid
 UTF-8

---
 huff/src/cli.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 37425fd..2bf9348 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -149,10 +149,10 @@ macro_rules! ask_replace {
 pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
     let start = std::time::Instant::now();
 
-    let src_path = std::path::PathBuf::from(matches.value_of("SRC_FILE").unwrap());
-    let mut dst_path = std::path::PathBuf::from(matches.value_of("DST_FILE").unwrap());
+    let src_path = std::path::PathBuf::from(matches.value_of_os("SRC_FILE").unwrap());
+    let mut dst_path = std::path::PathBuf::from(matches.value_of_os("DST_FILE").unwrap());
     
-    let block_size = parse_block_size!(matches.value_of("block-size").unwrap());
+    let block_size = parse_block_size!(matches.value_of_lossy("block-size").unwrap());
 
     // the decompress flag is present
     if matches.is_present("decompress"){
-- 
2.43.0


From 37fa2ec787b6d414eae18ac07b2dd112daf36a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:25 +0000
Subject: [PATCH 16/22] fix: huff dropped the trailing dot of a file name when
 appending .hff

---
 huff/src/cli.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 2bf9348..f59df26 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -8,7 +8,10 @@ use super::{
 
 use std::{
     fs,
-    ffi::OsStr,
+    ffi::{
+        OsStr,
+        OsString,
+    },
     io::{
         self,
         Write,
@@ -51,11 +54,12 @@ macro_rules! parse_paths {
         
         // add cli::EXTENSION to the dst_path
         $dst_path = $dst_path.with_extension({
-            let mut ex = $dst_path
-                .extension()
-                .unwrap_or(OsStr::new(""))
-                .to_os_string();
-            if !ex.is_empty(){ex.push(".");}
+            let mut ex = OsString::new();
+            // the extension of a name ending with a dot is empty, but the dot has to stay
+            if let Some(dst_ex) = $dst_path.extension(){
+                ex.push(dst_ex);
+                ex.push(".");
+            }
             ex.push(EXTENSION);
             ex
         });
-- 
2.43.0


From 7ac0413dc3a00b0c7064410a24779ac1bf9a9118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:28 +0000
Subject: [PATCH 17/22] fix: huff destroyed its source file when the
 destination was the same file

---
 huff/src/cli.rs | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index f59df26..6dbaaeb 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -134,6 +134,37 @@ macro_rules! parse_block_size {
     }};
 }
 
+/// Check whether both paths lead to the same existing file
+#[cfg(unix)]
+fn is_same_file(path: &Path, other: &Path) -> bool{
+    use std::os::unix::fs::MetadataExt;
+    match (fs::metadata(path), fs::metadata(other)){
+        (Ok(path), Ok(other)) => path.dev() == other.dev() && path.ino() == other.ino(),
+        _ => false,
+    }
+}
+
+/// Check whether both paths lead to the same existing file
+#[cfg(not(unix))]
+fn is_same_file(path: &Path, other: &Path) -> bool{
+    match (fs::canonicalize(path), fs::canonicalize(other)){
+        (Ok(path), Ok(other)) => path == other,
+        _ => false,
+    }
+}
+
+/// Writing to dst would destroy src if they're the same file
+macro_rules! check_not_same_file {
+    ($src_path: expr, $dst_path:expr) => {
+        if is_same_file(&$src_path, &$dst_path){
+            return Err(Error::new(
+                format!("{:?} and {:?} are the same file", $src_path, $dst_path),
+                ErrorKind::InvalidInput
+            ))
+        }
+    };
+}
+
 macro_rules! ask_replace {
     ($path: expr, $noask:expr) => {
         if $path.exists() && !$noask{
@@ -161,6 +192,7 @@ pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
     // the decompress flag is present
     if matches.is_present("decompress"){
         parse_paths!(decomp; src_path, dst_path);
+        check_not_same_file!(src_path, dst_path);
         // ask if should replace dst_file
         ask_replace!(dst_path, matches.is_present("noask"));
         // read src, decompress it, write the results to dst
@@ -169,6 +201,7 @@ pub fn process_args(matches: clap::ArgMatches) -> Result<(), Error>{
     // if no major flags are present, just compress
     else{
         parse_paths!(comp; src_path, dst_path);
+        check_not_same_file!(src_path, dst_path);
         // ask if should replace dst_file
         ask_replace!(dst_path, matches.is_present("noask"));
         // read src, compress it, write the results to dst
-- 
2.43.0


From 28e7a356f60ea3779568cd06353278dcc9e4f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:11 +0000
Subject: [PATCH 18/22] fix: huff could not compress files with names like ..a

---
 huff/src/cli.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index 6dbaaeb..e8c95c8 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -53,16 +53,15 @@ macro_rules! parse_paths {
         parse_paths!($src_path, $dst_path);
         
         // add cli::EXTENSION to the dst_path
-        $dst_path = $dst_path.with_extension({
-            let mut ex = OsString::new();
-            // the extension of a name ending with a dot is empty, but the dot has to stay
-            if let Some(dst_ex) = $dst_path.extension(){
-                ex.push(dst_ex);
-                ex.push(".");
-            }
-            ex.push(EXTENSION);
-            ex
-        });
+        // (with_extension turns names like ..a into ..)
+        let mut ex = OsString::new();
+        // the extension of a name ending with a dot is empty, but the dot has to stay
+        if let Some(dst_ex) = $dst_path.extension(){
+            ex.push(dst_ex);
+            ex.push(".");
+        }
+        ex.push(EXTENSION);
+        $dst_path.set_extension(ex);
 
     };
     (decomp; $src_path: expr, $dst_path:expr) =>{
-- 
2.43.0


From 98840b7f3cd646373b785821b28a354e0d606ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:14 +0000
Subject: [PATCH 19/22] fix: keep the tree length right for trees of more than
 2^32 bits

---
 huff_coding/src/comp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huff_coding/src/comp.rs b/huff_coding/src/comp.rs
index 5236069..51304f8 100644
--- a/huff_coding/src/comp.rs
+++ b/huff_coding/src/comp.rs
@@ -290,7 +290,7 @@ impl<L: HuffLetterAsBytes> CompressData<L>{
         // calculate its lenght in bytes
         let tree_bin = self.huff_tree().as_bin();
         let tree_bin_padding_bits = calc_padding_bits(tree_bin.len());
-        let tree_bytes_len = (tree_bin.len() as u32 + tree_bin_padding_bits as u32) / 8;
+        let tree_bytes_len = ((tree_bin.len() + tree_bin_padding_bits as usize) / 8) as u32;
 
         let mut bytes = Vec::new();
         // push an empty byte, later to be filled by the padding bit nums
-- 
2.43.0


From e0f8a3f1277ad49fcf86abeadb460ccbf8b6890c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:48 +0000
Subject: [PATCH 20/22] fix: break ties between weights by order, so that many
 zero weights don't nest the tree too deeply

---
 huff_coding/src/tree/branch_heap.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/huff_coding/src/tree/branch_heap.rs b/huff_coding/src/tree/branch_heap.rs
index bca4b84..40acecd 100644
--- a/huff_coding/src/tree/branch_heap.rs
+++ b/huff_coding/src/tree/branch_heap.rs
@@ -17,6 +17,7 @@ use std::{
 #[derive(Debug, Clone)]
 pub struct HuffBranchHeap<L: HuffLetter>{
     heap: BinaryHeap<HuffBranchHeapItem<L>>,
+    pushed: usize,
 }
 
 impl<L: HuffLetter> HuffBranchHeap<L>{
@@ -31,6 +32,7 @@ impl<L: HuffLetter> HuffBranchHeap<L>{
     pub fn new() -> Self{
         HuffBranchHeap::<L>{
             heap: BinaryHeap::new(),
+            pushed: 0,
         }
     }
 
@@ -41,10 +43,13 @@ impl<L: HuffLetter> HuffBranchHeap<L>{
 
     /// Push a branch onto the heap
     pub fn push(&mut self, branch: HuffBranch<L>){
-        self.heap.push(HuffBranchHeapItem(branch));
+        self.heap.push(HuffBranchHeapItem(branch, self.pushed));
+        self.pushed += 1;
     }
 
     /// Pop the `HuffBranch` with the smallest weight
+    /// (the one pushed first out of those with the same weight,
+    /// otherwise a lot of letters with a weight of 0 make the tree as deep as there are letters)
     pub fn pop_min(&mut self) -> HuffBranch<L>{
         self.heap.pop().unwrap().unwrap()
     }
@@ -62,11 +67,12 @@ impl<L: HuffLetter> HuffBranchHeap<L>{
 /// for the smallest HuffBranches to appear at the end of the 
 /// `HuffBranchHeap`
 #[derive(Debug, Clone, Eq)]
-struct HuffBranchHeapItem<L: HuffLetter>(HuffBranch<L>);
+struct HuffBranchHeapItem<L: HuffLetter>(HuffBranch<L>, usize);
 
 impl<L: HuffLetter> Ord for HuffBranchHeapItem<L>{
     fn cmp(&self, other: &Self) -> Ordering {
         other.0.leaf().cmp(&self.0.leaf())
+            .then(other.1.cmp(&self.1))
     }
 }
 
@@ -78,7 +84,7 @@ impl<L: HuffLetter> PartialOrd for HuffBranchHeapItem<L>{
 
 impl<L: HuffLetter> PartialEq for HuffBranchHeapItem<L>{
     fn eq(&self, other: &Self) -> bool {
-        self.0.leaf().weight() == other.0.leaf().weight()
+        self.cmp(other) == Ordering::Equal
     }
 }
 
-- 
2.43.0


From 4dcd77966127fb05c5ab518bf750b44081bc8387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:19 +0000
Subject: [PATCH 21/22] fix: take only ASCII letters for the unit of a block
 size

The Kelvin sign (U+212A) becomes k when it's made lowercase, so that 5K
written with it was taken for 5 kilobytes.
---
 huff/src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/huff/src/cli.rs b/huff/src/cli.rs
index e8c95c8..39ea574 100644
--- a/huff/src/cli.rs
+++ b/huff/src/cli.rs
@@ -90,7 +90,7 @@ macro_rules! parse_paths {
 
 macro_rules! parse_block_size {
     ($block_size_str:expr) => {{
-        let lowercase = $block_size_str.to_lowercase();
+        let lowercase = $block_size_str.to_ascii_lowercase();
         let mut chars = lowercase.chars();
         let mut num = String::new();
         let mut mult = String::new();
-- 
2.43.0


From 18cd3ead004592da1687e6613df156e1f171bb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 22/22] fix: do not reserve room for more threads than there
 are rations

---
 huff_coding/src/utils.rs   | 2 +-
 huff_coding/src/weights.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/huff_coding/src/utils.rs b/huff_coding/src/utils.rs
index 8ce59eb..fe1cfe5 100644
--- a/huff_coding/src/utils.rs
+++ b/huff_coding/src/utils.rs
@@ -8,7 +8,7 @@ pub fn ration_vec<T: Clone>(vec: &[T], ration_count: usize) -> Vec<Vec<T>>{
     let elements_per_ration = elements_left / ration_count;
     let mut current_element = 0;
 
-    let mut rations: Vec<Vec<T>> = Vec::with_capacity(ration_count);
+    let mut rations: Vec<Vec<T>> = Vec::with_capacity(ration_count.min(vec.len()));
     if elements_per_ration == 0{
         rations.push(vec[..].to_vec());
     }
diff --git a/huff_coding/src/weights.rs b/huff_coding/src/weights.rs
index 8e79088..5df76d9 100644
--- a/huff_coding/src/weights.rs
+++ b/huff_coding/src/weights.rs
@@ -290,7 +290,7 @@ pub mod byte_weights{
             let byte_rations = ration_vec(bytes, thread_num);
 
             // create ByteWeights from every ration
-            let mut handles = Vec::with_capacity(thread_num);
+            let mut handles = Vec::with_capacity(byte_rations.len());
             for ration in byte_rations{
                 let handle = thread::spawn(move || {
                     ByteWeights::from_bytes(&ration)
@@ -299,7 +299,7 @@ pub mod byte_weights{
             }
 
             // push all created ByteWeights into a Vec 
-            let mut weights_vec: Vec<ByteWeights> = Vec::with_capacity(thread_num);
+            let mut weights_vec: Vec<ByteWeights> = Vec::with_capacity(handles.len());
             for handle in handles{
                 weights_vec.push(handle.join().unwrap());
             }
-- 
2.43.0

