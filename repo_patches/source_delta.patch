From fd759855274c8c9dd38db42b5983e09e0cfe52a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 01/24] fix: count_sigma overflows on texts with all 256 byte
 values

---
 src/bin/count_sigma.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/count_sigma.rs b/src/bin/count_sigma.rs
index 58330b0..708d07f 100644
--- a/src/bin/count_sigma.rs
+++ b/src/bin/count_sigma.rs
@@ -8,9 +8,9 @@ use log::info;
 
 /// counts the number of different characters in a byte string
 // fn count_sigma(s : &[u8]) -> u8 {
-fn count_sigma<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> u8 {
-    let mut inc = 0_u8;
-    let mut alphabet_to_reduced: Vec<u8> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
+fn count_sigma<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> u16 {
+    let mut inc = 0_u16; //@ there can be 256 different characters
+    let mut alphabet_to_reduced: Vec<u16> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
     for c in text_iter {
         let index = *c as usize;
         if alphabet_to_reduced[index] == 0 {
-- 
2.43.0


From 3b5e42368023354ae6e1b3901295aa267549f469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:08 +0000
Subject: [PATCH 02/24] fix: mtf panics on the byte 255

---
 src/bin/mtf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/mtf.rs b/src/bin/mtf.rs
index 9fb08f3..b0424b7 100644
--- a/src/bin/mtf.rs
+++ b/src/bin/mtf.rs
@@ -5,7 +5,7 @@ use stringology::core;
 use stringology::io;
 
 pub fn mtf<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    let mut mtfvector: Vec<u8> = (0..u8::MAX).collect();
+    let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();
     loop {
         match io::read_char(&mut reader) {
             Err(_) => break,
-- 
2.43.0


From 0987f4f369ca8a076a717167fe4eb4ad214e427b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 03/24] fix: rle panics in its option parser because of
 duplicate short options

---
 src/bin/rle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index d179068..aea3a41 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -114,11 +114,11 @@ struct Args {
     outfilename: Option<String>,
 
     /// the length of the prefix to parse
-    #[arg(short, long)]
+    #[arg(long)]
     onlyzero: bool,
 
     /// human-readable output
-    #[arg(short, long)]
+    #[arg(long)]
     human: bool,
 }
 
-- 
2.43.0


From 87f252f0c168ab792c2097f887f6a2d87ff9e96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 04/24] fix: rle --human overflows on runs longer than 255

---
 src/bin/rle.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index aea3a41..48ff069 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -10,7 +10,7 @@ pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
     match io::read_char(&mut reader) {
         Err(_) => (),
         Ok(first_char) => {
-            let mut run_counter = 0_u8; //@ counts the number of character runs
+            let mut run_counter = 0_usize; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
                 match io::read_char(&mut reader) {
-- 
2.43.0


From 3ff4a0aa4b819e29e60006408b6a3b4da3836fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 05/24] fix: rle panics on runs of 256 or more characters

---
 src/bin/rle.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index 48ff069..7779868 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -42,8 +42,8 @@ pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut
                 match io::read_char(&mut reader) {
                     Err(_) => break,
                     Ok(next_char) => {
-                        if next_char != prev_char {
-                            assert_lt!(run_counter, u8::MAX);
+                        if next_char != prev_char || run_counter == u8::MAX {
+                            //@ a pair represents at most 256 characters
                             writer.write_all(&[prev_char, run_counter]).unwrap();
                             prev_char = next_char;
                             run_counter = 0;
-- 
2.43.0


From d571f073ba21ad66336f035f183d7fd8ed6be55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 06/24] fix: rle --onlyzero drops the character after a run of
 zeros

---
 src/bin/rle.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index 7779868..c28ff14 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -1,7 +1,5 @@
 // extern crate byte_string;
 extern crate env_logger;
-#[macro_use]
-extern crate more_asserts;
 
 use stringology::core;
 use stringology::io;
@@ -65,7 +63,7 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
     match io::read_char(&mut reader) {
         Err(_) => (),
         Ok(first_char) => {
-            let mut run_counter = 0; //@ counts the number of character runs
+            let mut run_counter = 0_usize; //@ counts the number of character runs
             if first_char == CHR_ZERO {
                 run_counter = 1;
             } else {
@@ -76,23 +74,28 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
                     Err(_) => break,
                     Ok(next_char) => {
                         if next_char != CHR_ZERO {
-                            if run_counter == 0 {
-                                writer.write_all(&[next_char]).unwrap();
-                            } else {
-                                assert_lt!(run_counter - 1, u8::MAX);
+                            if run_counter > 0 {
                                 writer
-                                    .write_all(&[CHR_ZERO, run_counter.saturating_sub(1)])
+                                    .write_all(&[CHR_ZERO, (run_counter - 1) as u8])
                                     .unwrap();
                                 run_counter = 0;
                             }
+                            writer.write_all(&[next_char]).unwrap();
                         } else {
+                            if run_counter == u8::MAX as usize + 1 {
+                                //@ a pair represents at most 256 zeros
+                                writer.write_all(&[CHR_ZERO, u8::MAX]).unwrap();
+                                run_counter = 0;
+                            }
                             run_counter += 1;
                         }
                     }
                 }
             }
             if run_counter > 0 {
-                writer.write_all(&[CHR_ZERO, run_counter]).unwrap();
+                writer
+                    .write_all(&[CHR_ZERO, (run_counter - 1) as u8])
+                    .unwrap();
             }
         }
     }
-- 
2.43.0


From e4ead9f53f2fd21b4d8fe7bf91611496e859affd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 07/24] fix: escape rejects its documented comma-separated
 symbol lists

---
 src/bin/escape.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 89e7561..c9b5d7d 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -35,11 +35,11 @@ struct Args {
     escape_symbol: u8,
 
     /// byte codes that need to be escaped, a list separeted by commas
-    #[arg(short, long)]
+    #[arg(short, long, value_delimiter = ',')]
     from_symbols: Vec<u8>,
 
     /// list byte codes that are safe and equal of length to from
-    #[arg(short, long)]
+    #[arg(short, long, value_delimiter = ',')]
     to_symbols: Vec<u8>,
 
     /// if true, invert the conversion
-- 
2.43.0


From 7f5ae560ba1a17a91a7057759db0fa2482039c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 08/24] fix: escape discards its whole input if no prefix
 length is given

---
 src/bin/escape.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index c9b5d7d..8dfa8df 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -93,6 +93,12 @@ fn main() {
 
     env_logger::init();
     info!("args.prefixlength: {}", args.prefixlength);
+    //@ 0 means to read the entire input
+    let prefixlength = if args.prefixlength == 0 {
+        usize::MAX
+    } else {
+        args.prefixlength
+    };
 
     if args.is_reversion {
         let revert_mapping = {
@@ -102,7 +108,7 @@ fn main() {
             }
             revert_mapping
         };
-        for _ in 0..args.prefixlength {
+        for _ in 0..prefixlength {
             match io::read_char(&mut reader) {
                 Err(_) => break,
                 Ok(cur_char) => {
@@ -129,7 +135,7 @@ fn main() {
             }
             char_mapping
         };
-        for _ in 0..args.prefixlength {
+        for _ in 0..prefixlength {
             match io::read_char(&mut reader) {
                 Err(_) => break,
                 Ok(cur_char) => {
-- 
2.43.0


From 5df7d18147e9e1f3f47b7c78be5d3086ba4a28ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 09/24] fix: escape accepts ambiguous --to symbols that cannot
 be reverted

---
 src/bin/escape.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 8dfa8df..37ebbe3 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -90,6 +90,10 @@ fn main() {
         .from_symbols
         .iter()
         .any(|&i| args.to_symbols.contains(&i)));
+    assert!(
+        !(1..args.to_symbols.len()).any(|i| args.to_symbols[..i].contains(&args.to_symbols[i])),
+        "The --to symbols must be distinct!"
+    );
 
     env_logger::init();
     info!("args.prefixlength: {}", args.prefixlength);
-- 
2.43.0


From 2915bb73d2fbc64dd00e3e7ee5a4f0e5be917a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:13 +0000
Subject: [PATCH 10/24] fix: tools panic if standard input is shorter than the
 prefix length

---
 src/io.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index d95055d..ee5fb90 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -33,8 +33,11 @@ pub fn stdin2byte_vector(prefix_length: usize) -> Vec<u8> {
     let mut reader = std::io::stdin();
     // let reader = stdin.lock();
     if prefix_length > 0 {
-        let mut buffer = vec![0; prefix_length];
-        reader.read_exact(buffer.as_mut_slice()).unwrap();
+        let mut buffer = Vec::new();
+        reader
+            .take(prefix_length as u64)
+            .read_to_end(&mut buffer)
+            .unwrap();
         buffer
     } else {
         let mut buffer = Vec::new();
-- 
2.43.0


From fa89e3daceb7cbe8be68eaa7d8c8ea9c0b280ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:14 +0000
Subject: [PATCH 11/24] fix: named pipes given as input file are read as empty
 files

---
 src/io.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index ee5fb90..cb8139c 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -5,18 +5,16 @@ pub fn file2byte_vector(filename: &str, prefix_length: usize) -> Vec<u8> {
     use std::io::Read;
 
     let path = std::path::Path::new(filename);
-    let mut f = fs::File::open(path).expect("no file found");
-    let metadata = fs::metadata(path).expect("unable to read metadata");
-    let buffer_length = if prefix_length > 0 {
-        std::cmp::min(prefix_length as u64, metadata.len())
+    let f = fs::File::open(path).expect("no file found");
+
+    //@ do not trust the file's metadata: pipes and devices report a length of zero
+    let limit = if prefix_length > 0 {
+        prefix_length as u64
     } else {
-        metadata.len()
+        u64::MAX
     };
-    assert!(buffer_length <= usize::MAX as u64);
-
-    let mut buffer = vec![0; buffer_length as usize];
-    f.read_exact(&mut buffer).unwrap();
-
+    let mut buffer = Vec::new();
+    f.take(limit).read_to_end(&mut buffer).unwrap();
     // let mut buffer = Vec::new();
     // buffer.reserve_exact(buffer_length as usize);
     // match f.read_to_end(&mut buffer) {
-- 
2.43.0


From 2167d818dc6a4ee65bfb1132f9eb3e225c86b0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 12/24] fix: read errors are taken for the end of the input

---
 src/io.rs | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index cb8139c..574ce96 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -77,20 +77,12 @@ pub fn stream_or_stdout(filename: Option<&str>) -> Box<dyn std::io::Write> {
 }
 
 /// read a single u8 character
+/// returns an error only at the end of the input, and panics if the input cannot be read
 pub fn read_char<R: std::io::Read>(reader: &mut R) -> std::io::Result<u8> {
     let mut buffer = [0u8];
-    match reader.read(buffer.as_mut()) {
-        Result::Ok(u) => {
-            if u == 1 {
-                Ok(buffer[0])
-            } else {
-                Err(std::io::Error::new(
-                    std::io::ErrorKind::Other,
-                    "end of file",
-                ))
-            }
-            // assert_eq!(u, 1);
-        }
-        Err(error) => Err(error),
+    match reader.read_exact(buffer.as_mut()) {
+        Ok(()) => Ok(buffer[0]),
+        Err(error) if error.kind() == std::io::ErrorKind::UnexpectedEof => Err(error),
+        Err(error) => panic!("cannot read the input: {}", error),
     }
 }
-- 
2.43.0


From 7b11ffc716e78c56d8286ea7a7beeae98b11fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:34 +0000
Subject: [PATCH 13/24] fix: bwt_by_matrix panics on texts containing zero
 bytes

---
 src/core.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 5f1dfb9..b74aa3f 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -54,9 +54,9 @@ pub fn bwt_by_matrix_naive<T: std::cmp::Ord + Copy>(text: &[T]) -> Vec<T> {
 }
 
 /// computes the BWT based on the matrix, i.e., the sorting of the cyclic conjugates of the
-/// input text by first finding its Lyndon conjugate, appending a 0 byte,
+/// input text by first finding its Lyndon conjugate,
 /// then computing the BWT of this conjugate
-/// via the suffix array, and removing the 0 byte at the end.
+/// via the suffix array.
 pub fn bwt_by_matrix(text: &[u8]) -> Vec<u8> {
     let n = text.len();
     assert_gt!(n, 0);
@@ -69,10 +69,12 @@ pub fn bwt_by_matrix(text: &[u8]) -> Vec<u8> {
     for letter in text[0..conjugate_start].iter() {
         newtext.push(*letter);
     }
-    newtext.push(0u8);
-    let mut bwt = bwt_from_text_by_sa(&newtext);
-    bwt.remove(bwt.iter().position(|&x| x == 0).unwrap());
-    bwt
+    //@ the suffixes of a smallest conjugate have the same order as its conjugates
+    let mut sa = vec![0; n];
+    cdivsufsort::sort_in_place(&newtext, sa.as_mut_slice());
+    sa.iter()
+        .map(|&position| newtext[(n + position as usize - 1) % n])
+        .collect()
 }
 
 /// the conjugate of the text that is Lyndon
-- 
2.43.0


From a16f1ac8b0df96ebf2f67985eba814c6cc25f95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 14/24] fix: compute_plcp matches the smallest suffix of unary
 texts with a larger suffix

---
 src/core.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index b74aa3f..7edea31 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -270,6 +270,13 @@ pub fn compute_plcp(text: &[u8], phi: &[i32]) -> Vec<u32> {
         {
             length += 1;
         }
+        //@ phi is cyclic: the smallest suffix has no lexicographic predecessor
+        if position_b + length == text.len()
+            || (position_a + length < text.len()
+                && text[position_a + length] > text[position_b + length])
+        {
+            length = 0;
+        }
         plcp[position_b] = length as u32;
         length = length.saturating_sub(1);
     }
-- 
2.43.0


From bb2de34b05e338239ea9592a50769de8771b5af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:02 +0000
Subject: [PATCH 15/24] fix: mus does not append the sentinel its computation
 needs

---
 src/bin/mus.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/mus.rs b/src/bin/mus.rs
index a81400f..e8399eb 100644
--- a/src/bin/mus.rs
+++ b/src/bin/mus.rs
@@ -65,8 +65,9 @@ fn main() {
     info!("Build DS");
     let now = Instant::now();
 
-    let text =
+    let mut text =
         io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
+    text.push(0u8); //@ get_mus needs a unique smallest sentinel
 
     let sa = {
         let mut sa = vec![0; text.len()];
-- 
2.43.0


From dd224619576245ee2f7495fa9213bf8f86f2d413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 16/24] fix: lyndonfactorization reports the prefix length as
 the text length

---
 src/bin/lyndonfactorization.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin/lyndonfactorization.rs b/src/bin/lyndonfactorization.rs
index 0838652..d0d1e58 100644
--- a/src/bin/lyndonfactorization.rs
+++ b/src/bin/lyndonfactorization.rs
@@ -37,17 +37,17 @@ fn main() {
     env_logger::init();
     use std::time::Instant;
 
-    let result_format = format!(
-        "RESULT file={} length={} ",
-        core::get_filename(&args.infilename),
-        args.prefixlength
-    );
-
     info!("read text");
 
     let text =
         io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
 
+    let result_format = format!(
+        "RESULT file={} length={} ",
+        core::get_filename(&args.infilename),
+        text.len()
+    );
+
     let timenow = Instant::now();
 
     let factors = core::duval(&text);
-- 
2.43.0


From c19a91e3538fa424aacd99e20bb460f83d212a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:21 +0000
Subject: [PATCH 17/24] fix: lyndonfactorization ignores errors when writing
 its factor file

---
 src/bin/lyndonfactorization.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/lyndonfactorization.rs b/src/bin/lyndonfactorization.rs
index d0d1e58..5998358 100644
--- a/src/bin/lyndonfactorization.rs
+++ b/src/bin/lyndonfactorization.rs
@@ -96,6 +96,7 @@ fn main() {
                 os.write_all(&text[factors[factor_id - 1] + 1..factors[factor_id] + 1])
                     .unwrap();
             }
+            os.flush().unwrap();
         }
     };
 
-- 
2.43.0


From ea1fa4ae73af7f57a79fe4b3fcbe9472eae22416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 18/24] fix: word ignores errors when writing to standard
 output

---
 src/bin/word.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/word.rs b/src/bin/word.rs
index 3ce7afe..24a4a9b 100644
--- a/src/bin/word.rs
+++ b/src/bin/word.rs
@@ -54,4 +54,5 @@ fn main() {
         WordName::Vtm => word::vtm_word,
     };
     writer.write_all(fun(args.k).as_slice()).unwrap();
+    writer.flush().unwrap();
 }
-- 
2.43.0


From fef0677f0510731d5e905ae439c792a2f173989a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:22 +0000
Subject: [PATCH 19/24] fix: randomstring ignores errors when writing to
 standard output

---
 src/bin/randomstring.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/randomstring.rs b/src/bin/randomstring.rs
index ed12ab7..53a9dd9 100644
--- a/src/bin/randomstring.rs
+++ b/src/bin/randomstring.rs
@@ -58,4 +58,5 @@ fn main() {
         charset.insert(newchar);
         writer.write_all(&[newchar]).unwrap();
     }
+    writer.flush().unwrap();
 }
-- 
2.43.0


From 2d5b739159eb0af3ce09b76fcefa3dac08b6ea5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:24 +0000
Subject: [PATCH 20/24] fix: BinaryStringGenerator is neither ordered nor
 finite

---
 src/core.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 7edea31..daa78f7 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -509,12 +509,13 @@ impl Iterator for BinaryStringGenerator {
     type Item = Vec<u8>;
 
     fn next(&mut self) -> Option<Vec<u8>> {
-        if self.m_rank == u64::MAX {
+        if self.m_rank == u64::MAX || self.m_rank.checked_shr(self.m_length as u32).unwrap_or(0) > 0 {
             return None;
         }
         let mut text = Vec::with_capacity(self.m_length as usize);
-        for i in 0..self.m_length {
-            let bit = self.m_rank & (1 << i);
+        for i in (0..self.m_length).rev() {
+            //@ the first character is the most significant bit of the rank
+            let bit = self.m_rank.checked_shr(i as u32).unwrap_or(0) & 1;
             text.push(if bit == 0 { b'0' } else { b'1' });
         }
         self.m_rank += 1;
-- 
2.43.0


From ebaad6e1f95cedc43fafef96dc9d4be009c4acbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 21/24] fix: power2_sequence ends with a zero byte

---
 src/word.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/word.rs b/src/word.rs
index 168b228..c854ef4 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -597,7 +597,7 @@ pub fn power2_sequence(k: u8) -> Vec<u8> {
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
     let mut most_significant_bit = 0;
-    for j in 1..n {
+    for j in 1..=n {
         while j > 1 << (most_significant_bit + 1) {
             most_significant_bit += 1;
         }
-- 
2.43.0


From 0b3288552aac1a1fc05ba5c2b8a15515f73304db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:26 +0000
Subject: [PATCH 22/24] fix: is_stringattractor panics on uncovered substrings
 that are not valid UTF-8

---
 src/bin/is_stringattractor.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/is_stringattractor.rs b/src/bin/is_stringattractor.rs
index aa4505b..63618a6 100644
--- a/src/bin/is_stringattractor.rs
+++ b/src/bin/is_stringattractor.rs
@@ -222,7 +222,6 @@ fn is_attractor(text: &[u8], attractor: &[u64]) -> bool {
 
     use segment_tree::ops::Min;
     use segment_tree::SegmentPoint;
-    use std::str;
     let d_rmq = SegmentPoint::build(arr_d.clone(), Min);
 
     let mut is_attractor = true;
@@ -237,7 +236,7 @@ fn is_attractor(text: &[u8], attractor: &[u64]) -> bool {
             let endpos = std::cmp::min(sa[lcpinterval.begin as usize] as usize + lcplength, n);
             println!(
                 "substring '{}' not covered!",
-                str::from_utf8(&text[startpos..endpos]).unwrap()
+                String::from_utf8_lossy(&text[startpos..endpos])
             );
         }
     }
-- 
2.43.0


From 0cf98d10962c88218e7d88f03f1f2aa3395c639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:46 +0000
Subject: [PATCH 23/24] fix: binary_debruijn_word stops before all words have
 occurred

---
 src/word.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/word.rs b/src/word.rs
index c854ef4..7c3bf62 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -1,5 +1,6 @@
 extern crate env_logger;
 extern crate log;
+use crate::core;
 use log::info;
 
 const CHR_A: u8 = b'a';
@@ -554,7 +555,10 @@ pub fn binary_debruijn_word(k: u8) -> Vec<u8> {
     loop {
         let mut first_char = word.pop_front().unwrap();
         word.push_back(CHR_B);
-        if is_necklace(&word, word.len()) {
+        //@ is_necklace also accepts proper prefixes of necklaces
+        if is_necklace(&word, word.len())
+            && n % core::smallest_period(&core::border_array(word.make_contiguous())) == 0
+        {
             first_char = reverse(first_char);
         }
         *word.back_mut().unwrap() = first_char;
-- 
2.43.0


From f091997a2bd0b4d8ae13922e35a3639a292e2007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:38 +0000
Subject: [PATCH 24/24] fix: escape --is-reversion reads beyond the prefix
 length

---
 src/bin/escape.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 37ebbe3..45b0fb3 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -69,7 +69,7 @@ fn main() {
     // let from_symbols : Vec<u8> = matches.value_of("from").unwrap().split(",").map(|s| -> u8 { s.parse::<u8>().unwrap()  }).collect();
     // let to_symbols : Vec<u8> = matches.value_of("to").unwrap().split(",").map(|s| -> u8 { s.parse::<u8>().unwrap()  }).collect();
     // let is_reversion = matches.is_present("revert");
-    let mut reader = io::stream_or_stdin(core::stringopt_stropt(&args.infilename));
+    let reader = io::stream_or_stdin(core::stringopt_stropt(&args.infilename));
     let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
 
     //@ sanity checks
@@ -103,6 +103,8 @@ fn main() {
     } else {
         args.prefixlength
     };
+    //@ an escaped character takes two bytes of the prefix
+    let mut reader = std::io::Read::take(reader, prefixlength as u64);
 
     if args.is_reversion {
         let revert_mapping = {
-- 
2.43.0

