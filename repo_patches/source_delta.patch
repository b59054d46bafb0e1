From 0f46e743bfe9c473d1300ba5b0d75e9cb0c454e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 01/31] fix: escape processes the entire input when no prefix
 length is given

---
 src/bin/escape.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 89e7561..75abfe3 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -94,6 +94,12 @@ fn main() {
     env_logger::init();
     info!("args.prefixlength: {}", args.prefixlength);
 
+    //@ a prefix length of 0 selects the entire input
+    let prefix_length = match args.prefixlength {
+        0 => usize::MAX,
+        length => length,
+    };
+
     if args.is_reversion {
         let revert_mapping = {
             let mut revert_mapping = HashMap::new();
@@ -102,7 +108,7 @@ fn main() {
             }
             revert_mapping
         };
-        for _ in 0..args.prefixlength {
+        for _ in 0..prefix_length {
             match io::read_char(&mut reader) {
                 Err(_) => break,
                 Ok(cur_char) => {
@@ -129,7 +135,7 @@ fn main() {
             }
             char_mapping
         };
-        for _ in 0..args.prefixlength {
+        for _ in 0..prefix_length {
             match io::read_char(&mut reader) {
                 Err(_) => break,
                 Ok(cur_char) => {
-- 
2.43.0


From 8d84488b272f96843ecb9892bc2caff8cff78176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 02/31] fix: count_sigma counts all 256 byte values without
 overflowing

---
 src/bin/count_sigma.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/count_sigma.rs b/src/bin/count_sigma.rs
index 58330b0..eb0e603 100644
--- a/src/bin/count_sigma.rs
+++ b/src/bin/count_sigma.rs
@@ -8,9 +8,9 @@ use log::info;
 
 /// counts the number of different characters in a byte string
 // fn count_sigma(s : &[u8]) -> u8 {
-fn count_sigma<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> u8 {
-    let mut inc = 0_u8;
-    let mut alphabet_to_reduced: Vec<u8> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
+fn count_sigma<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> usize {
+    let mut inc = 0_usize;
+    let mut alphabet_to_reduced: Vec<usize> = vec![0; u8::MAX as usize + 1]; //@ maps a u8 char to its symbol of the effective alphabet, we start at 1 since 0 is treated as a special symbol
     for c in text_iter {
         let index = *c as usize;
         if alphabet_to_reduced[index] == 0 {
-- 
2.43.0


From 35c23c234296ca5201a9b6dd567170b76dc231ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 03/31] fix: mtf accepts the byte 255

---
 src/bin/mtf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/mtf.rs b/src/bin/mtf.rs
index 9fb08f3..b0424b7 100644
--- a/src/bin/mtf.rs
+++ b/src/bin/mtf.rs
@@ -5,7 +5,7 @@ use stringology::core;
 use stringology::io;
 
 pub fn mtf<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut W) {
-    let mut mtfvector: Vec<u8> = (0..u8::MAX).collect();
+    let mut mtfvector: Vec<u8> = (0..=u8::MAX).collect();
     loop {
         match io::read_char(&mut reader) {
             Err(_) => break,
-- 
2.43.0


From ced1f90506408ce89ffd459c43a456ae19724f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 04/31] fix: rle_zero keeps the byte after a run of zeros, and
 encodes all runs alike

---
 src/bin/rle.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index d179068..f89a243 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -79,12 +79,15 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
                             if run_counter == 0 {
                                 writer.write_all(&[next_char]).unwrap();
                             } else {
-                                assert_lt!(run_counter - 1, u8::MAX);
                                 writer
-                                    .write_all(&[CHR_ZERO, run_counter.saturating_sub(1)])
+                                    .write_all(&[CHR_ZERO, run_counter - 1, next_char])
                                     .unwrap();
                                 run_counter = 0;
                             }
+                        } else if run_counter == u8::MAX {
+                            //@ a longer run does not fit into a byte, so start a new one
+                            writer.write_all(&[CHR_ZERO, run_counter - 1]).unwrap();
+                            run_counter = 1;
                         } else {
                             run_counter += 1;
                         }
@@ -92,7 +95,7 @@ pub fn rle_zero<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
                 }
             }
             if run_counter > 0 {
-                writer.write_all(&[CHR_ZERO, run_counter]).unwrap();
+                writer.write_all(&[CHR_ZERO, run_counter - 1]).unwrap();
             }
         }
     }
-- 
2.43.0


From 525ba7c03df048132bdf92d905c62607f8c3a2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 05/31] fix: rle does not overflow on runs longer than a byte
 can count

---
 src/bin/rle.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index f89a243..4009e75 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -1,7 +1,5 @@
 // extern crate byte_string;
 extern crate env_logger;
-#[macro_use]
-extern crate more_asserts;
 
 use stringology::core;
 use stringology::io;
@@ -10,7 +8,7 @@ pub fn rle_text<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer:
     match io::read_char(&mut reader) {
         Err(_) => (),
         Ok(first_char) => {
-            let mut run_counter = 0_u8; //@ counts the number of character runs
+            let mut run_counter = 0_usize; //@ counts the number of character runs
             let mut prev_char = first_char; //@ the current character of the chracter run
             loop {
                 match io::read_char(&mut reader) {
@@ -42,8 +40,8 @@ pub fn rle<R: std::io::Read, W: std::io::Write>(mut reader: &mut R, writer: &mut
                 match io::read_char(&mut reader) {
                     Err(_) => break,
                     Ok(next_char) => {
-                        if next_char != prev_char {
-                            assert_lt!(run_counter, u8::MAX);
+                        //@ a longer run does not fit into a byte, so start a new one
+                        if next_char != prev_char || run_counter == u8::MAX {
                             writer.write_all(&[prev_char, run_counter]).unwrap();
                             prev_char = next_char;
                             run_counter = 0;
-- 
2.43.0


From e515d34f29aa475fe31bdba8cdb34bf8fb192cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 06/31] fix: rle starts: its short options clashed with each
 other and with --help

---
 src/bin/rle.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index 4009e75..10569c9 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -114,12 +114,12 @@ struct Args {
     #[arg(short, long)]
     outfilename: Option<String>,
 
-    /// the length of the prefix to parse
-    #[arg(short, long)]
+    /// only encode the runs of the character '0'
+    #[arg(short = 'z', long)]
     onlyzero: bool,
 
     /// human-readable output
-    #[arg(short, long)]
+    #[arg(long)]
     human: bool,
 }
 
-- 
2.43.0


From cde841161a80372a1f9ce0b0840b3c3e32d9ee0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 07/31] fix: stdin2byte_vector accepts inputs shorter than the
 prefix length

---
 src/io.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index d95055d..fb21ef9 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -33,8 +33,10 @@ pub fn stdin2byte_vector(prefix_length: usize) -> Vec<u8> {
     let mut reader = std::io::stdin();
     // let reader = stdin.lock();
     if prefix_length > 0 {
-        let mut buffer = vec![0; prefix_length];
-        reader.read_exact(buffer.as_mut_slice()).unwrap();
+        //@ the input can be shorter than the prefix
+        let mut buffer = Vec::new();
+        let mut prefix = reader.take(prefix_length as u64);
+        prefix.read_to_end(&mut buffer).unwrap();
         buffer
     } else {
         let mut buffer = Vec::new();
-- 
2.43.0


From 9e8d23a69b0911193b81640af9fa8754485f53ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 08/31] fix: file2byte_vector reads pipes and devices, whose
 metadata tell no length

---
 src/io.rs | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/io.rs b/src/io.rs
index fb21ef9..2403f95 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -6,23 +6,14 @@ pub fn file2byte_vector(filename: &str, prefix_length: usize) -> Vec<u8> {
 
     let path = std::path::Path::new(filename);
     let mut f = fs::File::open(path).expect("no file found");
-    let metadata = fs::metadata(path).expect("unable to read metadata");
-    let buffer_length = if prefix_length > 0 {
-        std::cmp::min(prefix_length as u64, metadata.len())
+    //@ the metadata of pipes and devices do not tell how much there is to read
+    let mut buffer = Vec::new();
+    if prefix_length > 0 {
+        let mut prefix = f.take(prefix_length as u64);
+        prefix.read_to_end(&mut buffer).unwrap();
     } else {
-        metadata.len()
-    };
-    assert!(buffer_length <= usize::MAX as u64);
-
-    let mut buffer = vec![0; buffer_length as usize];
-    f.read_exact(&mut buffer).unwrap();
-
-    // let mut buffer = Vec::new();
-    // buffer.reserve_exact(buffer_length as usize);
-    // match f.read_to_end(&mut buffer) {
-    //     Ok(length) => assert_eq!(length, buffer.len()),
-    //     Err(x) => panic!("in file2byte_vector: {}", x),
-    // };
+        f.read_to_end(&mut buffer).unwrap();
+    }
     buffer
 }
 
-- 
2.43.0


From 6a9a487e86ed69975caace07d94e3d419cc0e66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 09/31] fix: read_char does not report a failed read like the
 end of the input

---
 src/io.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index 2403f95..977c715 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -83,6 +83,7 @@ pub fn read_char<R: std::io::Read>(reader: &mut R) -> std::io::Result<u8> {
             }
             // assert_eq!(u, 1);
         }
-        Err(error) => Err(error),
+        //@ callers take an error for the end of the input
+        Err(error) => panic!("unable to read the input: {}", error),
     }
 }
-- 
2.43.0


From 6151976226c94b59984d924a9ec321b8db905542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 10/31] fix: lyndonfactorization reports the length of the
 text, not of the prefix option

---
 src/bin/lyndonfactorization.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/bin/lyndonfactorization.rs b/src/bin/lyndonfactorization.rs
index 0838652..d0d1e58 100644
--- a/src/bin/lyndonfactorization.rs
+++ b/src/bin/lyndonfactorization.rs
@@ -37,17 +37,17 @@ fn main() {
     env_logger::init();
     use std::time::Instant;
 
-    let result_format = format!(
-        "RESULT file={} length={} ",
-        core::get_filename(&args.infilename),
-        args.prefixlength
-    );
-
     info!("read text");
 
     let text =
         io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
 
+    let result_format = format!(
+        "RESULT file={} length={} ",
+        core::get_filename(&args.infilename),
+        text.len()
+    );
+
     let timenow = Instant::now();
 
     let factors = core::duval(&text);
-- 
2.43.0


From dd10fa0bb8b796279c3bffdec0be80cc6515757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 11/31] fix: word, randomstring and lyndonfactorization do not
 exit successfully with unwritten output

---
 src/bin/lyndonfactorization.rs | 1 +
 src/bin/randomstring.rs        | 1 +
 src/bin/word.rs                | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/bin/lyndonfactorization.rs b/src/bin/lyndonfactorization.rs
index d0d1e58..5998358 100644
--- a/src/bin/lyndonfactorization.rs
+++ b/src/bin/lyndonfactorization.rs
@@ -96,6 +96,7 @@ fn main() {
                 os.write_all(&text[factors[factor_id - 1] + 1..factors[factor_id] + 1])
                     .unwrap();
             }
+            os.flush().unwrap();
         }
     };
 
diff --git a/src/bin/randomstring.rs b/src/bin/randomstring.rs
index ed12ab7..53a9dd9 100644
--- a/src/bin/randomstring.rs
+++ b/src/bin/randomstring.rs
@@ -58,4 +58,5 @@ fn main() {
         charset.insert(newchar);
         writer.write_all(&[newchar]).unwrap();
     }
+    writer.flush().unwrap();
 }
diff --git a/src/bin/word.rs b/src/bin/word.rs
index 3ce7afe..24a4a9b 100644
--- a/src/bin/word.rs
+++ b/src/bin/word.rs
@@ -54,4 +54,5 @@ fn main() {
         WordName::Vtm => word::vtm_word,
     };
     writer.write_all(fun(args.k).as_slice()).unwrap();
+    writer.flush().unwrap();
 }
-- 
2.43.0


From 7d0018d71e7ee00cf162a9c03153fb640950eedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 12/31] fix: start the logger before the first log message,
 such that RUST_LOG shows it

---
 src/bin/count_lexparse.rs      | 3 ++-
 src/bin/count_z.rs             | 3 ++-
 src/bin/enumerate_lexparse.rs  | 2 ++
 src/bin/lyndonfactorization.rs | 3 ++-
 src/bin/word.rs                | 4 ++++
 5 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/bin/count_lexparse.rs b/src/bin/count_lexparse.rs
index 8b2b025..d1b14a0 100644
--- a/src/bin/count_lexparse.rs
+++ b/src/bin/count_lexparse.rs
@@ -63,10 +63,11 @@ struct Args {
 fn main() {
     let args = Args::parse();
 
+    env_logger::init();
+
     info!("filename: {}", core::get_filename(&args.infilename));
     info!("prefixlength: {}", args.prefixlength);
 
-    env_logger::init();
     use std::time::Instant;
 
     info!("Build DS");
diff --git a/src/bin/count_z.rs b/src/bin/count_z.rs
index a40214b..5cc4c45 100644
--- a/src/bin/count_z.rs
+++ b/src/bin/count_z.rs
@@ -164,10 +164,11 @@ struct Args {
 fn main() {
     let args = Args::parse();
 
+    env_logger::init();
+
     info!("filename: {}", core::get_filename(&args.infilename));
     info!("args.prefixlength: {}", args.prefixlength);
 
-    env_logger::init();
     use std::time::Instant;
 
     info!("Build DS");
diff --git a/src/bin/enumerate_lexparse.rs b/src/bin/enumerate_lexparse.rs
index 9e2aef0..e41a452 100644
--- a/src/bin/enumerate_lexparse.rs
+++ b/src/bin/enumerate_lexparse.rs
@@ -48,6 +48,8 @@ use std::str;
 use std::collections::HashMap;
 
 fn main() {
+    env_logger::init();
+
     let length: usize = 32;
     let alphabet_size: usize = 2;
     let g = Gn::new_scoped(|mut s| {
diff --git a/src/bin/lyndonfactorization.rs b/src/bin/lyndonfactorization.rs
index 5998358..868a9a4 100644
--- a/src/bin/lyndonfactorization.rs
+++ b/src/bin/lyndonfactorization.rs
@@ -31,10 +31,11 @@ struct Args {
 fn main() {
     let args = Args::parse();
 
+    env_logger::init();
+
     info!("filename: {}", core::get_filename(&args.infilename));
     info!("args.prefixlength: {}", args.prefixlength);
 
-    env_logger::init();
     use std::time::Instant;
 
     info!("read text");
diff --git a/src/bin/word.rs b/src/bin/word.rs
index 24a4a9b..94b8627 100644
--- a/src/bin/word.rs
+++ b/src/bin/word.rs
@@ -1,3 +1,5 @@
+extern crate env_logger;
+
 use stringology::core;
 use stringology::io;
 use stringology::word;
@@ -38,6 +40,8 @@ enum WordName {
 
 fn main() {
     let args = Args::parse();
+
+    env_logger::init();
     let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
 
     let fun = match args.name {
-- 
2.43.0


From 963ff8c337f08187a5ed3be9701c0caf1f9f25a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 13/31] fix: do not truncate the output file before the input
 and the options are known to be good

---
 src/bin/escape.rs  | 3 ++-
 src/bin/mtf.rs     | 2 +-
 src/bin/reverse.rs | 2 +-
 src/bin/rle.rs     | 2 +-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 75abfe3..b993cc4 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -70,7 +70,6 @@ fn main() {
     // let to_symbols : Vec<u8> = matches.value_of("to").unwrap().split(",").map(|s| -> u8 { s.parse::<u8>().unwrap()  }).collect();
     // let is_reversion = matches.is_present("revert");
     let mut reader = io::stream_or_stdin(core::stringopt_stropt(&args.infilename));
-    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
 
     //@ sanity checks
     assert_eq!(
@@ -91,6 +90,8 @@ fn main() {
         .iter()
         .any(|&i| args.to_symbols.contains(&i)));
 
+    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
+
     env_logger::init();
     info!("args.prefixlength: {}", args.prefixlength);
 
diff --git a/src/bin/mtf.rs b/src/bin/mtf.rs
index b0424b7..3616c3b 100644
--- a/src/bin/mtf.rs
+++ b/src/bin/mtf.rs
@@ -66,7 +66,7 @@ struct Args {
 
 fn main() {
     let args = Args::parse();
-    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
     let mut reader = io::stream_or_stdin(core::stringopt_stropt(&args.infilename));
+    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
     mtf(&mut reader, &mut writer);
 }
diff --git a/src/bin/reverse.rs b/src/bin/reverse.rs
index 87fec35..cd94f88 100644
--- a/src/bin/reverse.rs
+++ b/src/bin/reverse.rs
@@ -29,7 +29,6 @@ struct Args {
 /// encodings, and do not work on binary files in general.
 fn main() {
     let args = Args::parse();
-    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
 
     env_logger::init();
     info!("prefix_length: {}", args.prefixlength);
@@ -41,6 +40,7 @@ fn main() {
 
     info!("compute reverse");
     text.reverse();
+    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
     writer.write_all(text.as_slice()).unwrap();
     writer.flush().unwrap();
 }
diff --git a/src/bin/rle.rs b/src/bin/rle.rs
index 10569c9..fbbcfd4 100644
--- a/src/bin/rle.rs
+++ b/src/bin/rle.rs
@@ -125,8 +125,8 @@ struct Args {
 
 fn main() {
     let args = Args::parse();
-    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
     let mut reader = io::stream_or_stdin(core::stringopt_stropt(&args.infilename));
+    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
 
     if args.human {
         rle_text(&mut reader, &mut writer);
-- 
2.43.0


From 4f87e21ff82fe332d2a953dea645ab03cdb0a519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 14/31] fix: entropy_kmer prints the same digits in every run

---
 src/bin/entropy_kmer.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bin/entropy_kmer.rs b/src/bin/entropy_kmer.rs
index f4450b5..0b514e2 100644
--- a/src/bin/entropy_kmer.rs
+++ b/src/bin/entropy_kmer.rs
@@ -6,7 +6,7 @@ extern crate more_asserts;
 use stringology::core;
 use stringology::io;
 
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 #[cfg(test)]
 #[macro_use]
@@ -25,8 +25,8 @@ fn entropy_via_kmer_counting<I: Iterator<Item = std::io::Result<u8>>>(
     text_iter: &mut I,
     order: usize,
 ) -> (f64, usize) {
-    let mut kmers = HashMap::new();
-    let mut kplusmers = HashMap::new();
+    let mut kmers = BTreeMap::new();
+    let mut kplusmers = BTreeMap::new();
     let mut ringbuf: u64 = 0;
     for _ in 0..order {
         ringbuf <<= 8;
@@ -34,7 +34,7 @@ fn entropy_via_kmer_counting<I: Iterator<Item = std::io::Result<u8>>>(
     }
     let mut count = order;
 
-    fn increment_kmer(order: usize, ringbuf: u64, kmers: &mut HashMap<u64, u64>) {
+    fn increment_kmer(order: usize, ringbuf: u64, kmers: &mut BTreeMap<u64, u64>) {
         let kmer = ringbuf & (u64::MAX >> (8 * (8 - order)));
         match kmers.get_mut(&kmer) {
             Some(val) => {
-- 
2.43.0


From 0a96ed87c55102b9c6e1690858fe3ddbc45eb51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 15/31] fix: is_stringattractor does not panic on uncovered
 substrings that are not UTF-8

---
 src/bin/is_stringattractor.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/bin/is_stringattractor.rs b/src/bin/is_stringattractor.rs
index aa4505b..63618a6 100644
--- a/src/bin/is_stringattractor.rs
+++ b/src/bin/is_stringattractor.rs
@@ -222,7 +222,6 @@ fn is_attractor(text: &[u8], attractor: &[u64]) -> bool {
 
     use segment_tree::ops::Min;
     use segment_tree::SegmentPoint;
-    use std::str;
     let d_rmq = SegmentPoint::build(arr_d.clone(), Min);
 
     let mut is_attractor = true;
@@ -237,7 +236,7 @@ fn is_attractor(text: &[u8], attractor: &[u64]) -> bool {
             let endpos = std::cmp::min(sa[lcpinterval.begin as usize] as usize + lcplength, n);
             println!(
                 "substring '{}' not covered!",
-                str::from_utf8(&text[startpos..endpos]).unwrap()
+                String::from_utf8_lossy(&text[startpos..endpos])
             );
         }
     }
-- 
2.43.0


From 372f833faeeff7f70289d6d1771c717ab037b560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 16/31] fix: mus appends the sentinel that its algorithm relies
 on

---
 src/bin/mus.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/mus.rs b/src/bin/mus.rs
index a81400f..3e72d10 100644
--- a/src/bin/mus.rs
+++ b/src/bin/mus.rs
@@ -65,8 +65,9 @@ fn main() {
     info!("Build DS");
     let now = Instant::now();
 
-    let text =
+    let mut text =
         io::file_or_stdin2byte_vector(core::stringopt_stropt(&args.infilename), args.prefixlength);
+    text.push(0u8); //@ get_mus needs a sentinel as the last character
 
     let sa = {
         let mut sa = vec![0; text.len()];
-- 
2.43.0


From 4b98932fabca162755ff6273fece6f43a1ac907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 17/31] fix: bwt_by_matrix does not panic on texts that end
 with the dollar sign

---
 src/core.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index 5f1dfb9..3e771d6 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -61,6 +61,11 @@ pub fn bwt_by_matrix(text: &[u8]) -> Vec<u8> {
     let n = text.len();
     assert_gt!(n, 0);
 
+    if text[n - 1] == 0 {
+        //@ a text with a terminating 0 byte has its conjugates in the order of its suffixes
+        return bwt_from_text_by_sa(&text.to_vec());
+    }
+
     let conjugate_start = lyndon_conjugate(text);
     let mut newtext = Vec::with_capacity(n);
     for letter in text[conjugate_start..n].iter() {
-- 
2.43.0


From 8ca137bf9d46cd3f433ee3ddfae627c61e03fbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 18/31] fix: power2_sequence sets its last character

---
 src/word.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/word.rs b/src/word.rs
index 168b228..c854ef4 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -597,7 +597,7 @@ pub fn power2_sequence(k: u8) -> Vec<u8> {
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
     let mut most_significant_bit = 0;
-    for j in 1..n {
+    for j in 1..=n {
         while j > 1 << (most_significant_bit + 1) {
             most_significant_bit += 1;
         }
-- 
2.43.0


From 7475a147f180c39b11a73f26c7152fdbfb5dc6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 19/31] fix: BinaryStringGenerator ends after the last string,
 and follows the lexicographic order

---
 src/core.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core.rs b/src/core.rs
index 3e771d6..79b87b0 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -505,11 +505,11 @@ impl Iterator for BinaryStringGenerator {
     type Item = Vec<u8>;
 
     fn next(&mut self) -> Option<Vec<u8>> {
-        if self.m_rank == u64::MAX {
+        if self.m_rank == u64::MAX || (self.m_length < 64 && self.m_rank >> self.m_length > 0) {
             return None;
         }
         let mut text = Vec::with_capacity(self.m_length as usize);
-        for i in 0..self.m_length {
+        for i in (0..self.m_length).rev() {
             let bit = self.m_rank & (1 << i);
             text.push(if bit == 0 { b'0' } else { b'1' });
         }
-- 
2.43.0


From 6b87e215c75abf5063ab3650cd5bfc33034c1a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 20/31] fix: compute_plcp gives the smallest suffix the value
 0, also for unary texts

---
 src/core.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core.rs b/src/core.rs
index 79b87b0..a1c0b22 100644
--- a/src/core.rs
+++ b/src/core.rs
@@ -273,6 +273,10 @@ pub fn compute_plcp(text: &[u8], phi: &[i32]) -> Vec<u32> {
         {
             length += 1;
         }
+        if position_b + length == text.len() {
+            //@ only the smallest suffix can be a prefix of its phi-neighbor, which is the largest one
+            length = 0;
+        }
         plcp[position_b] = length as u32;
         length = length.saturating_sub(1);
     }
-- 
2.43.0


From 99359b8a093f970a4502e5df999dd6b2b379885f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 21/31] fix: escape accepts lists of symbols separated by
 commas, as its help says

---
 src/bin/escape.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index b993cc4..18a6abb 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -35,11 +35,11 @@ struct Args {
     escape_symbol: u8,
 
     /// byte codes that need to be escaped, a list separeted by commas
-    #[arg(short, long)]
+    #[arg(short, long, value_delimiter = ',')]
     from_symbols: Vec<u8>,
 
     /// list byte codes that are safe and equal of length to from
-    #[arg(short, long)]
+    #[arg(short, long, value_delimiter = ',')]
     to_symbols: Vec<u8>,
 
     /// if true, invert the conversion
-- 
2.43.0


From 71200c34c8c605c8799fdd1f79c4a8701b9cbad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 22/31] fix: escape refuses mappings that cannot be reverted

---
 src/bin/escape.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/bin/escape.rs b/src/bin/escape.rs
index 18a6abb..f853b53 100644
--- a/src/bin/escape.rs
+++ b/src/bin/escape.rs
@@ -89,6 +89,11 @@ fn main() {
         .from_symbols
         .iter()
         .any(|&i| args.to_symbols.contains(&i)));
+    assert!(
+        (1..args.to_symbols.len()).all(|i| !args.to_symbols[..i].contains(&args.to_symbols[i])
+            && !args.from_symbols[..i].contains(&args.from_symbols[i])),
+        "The --from and --to symbols must each be distinct!"
+    );
 
     let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
 
-- 
2.43.0


From 26cb37f40ecd0dbdb231b68dd4d819cbd3a8b57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 23/31] fix: lyndonwords refuses alphabet sizes it cannot
 represent

---
 src/bin/lyndonwords.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/lyndonwords.rs b/src/bin/lyndonwords.rs
index ac4bb77..adff75b 100644
--- a/src/bin/lyndonwords.rs
+++ b/src/bin/lyndonwords.rs
@@ -23,6 +23,10 @@ struct Args {
 
 fn main() {
     let args = Args::parse();
+    assert!(
+        args.sigma > 0 && args.sigma <= (u8::MAX - b'a') as usize + 1,
+        "The alphabet size must be between 1 and 159!"
+    );
     let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
 
     for it in core::LyndonWordGenerator::new(args.length, args.sigma) {
-- 
2.43.0


From d31dbb0df1592710e0e1d225d436c39d630b62e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 24/31] fix: compute the size hints of vtm and the Fibonacci
 Lyndon factors in usize

---
 src/word.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/word.rs b/src/word.rs
index c854ef4..d3afcc0 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -684,7 +684,7 @@ pub fn vtm_morphism(c: u8) -> &'static [u8] {
 /// Francine Blanchet-Sadri, James D. Currie, Narad Rampersad, Nathan Fox:
 /// Abelian Complexity of Fixed Point of Morphism 0 ↦ 012, 1 ↦ 02, 2 ↦ 1. Integers 14: A11 (2014)
 pub fn vtm_word(k: u8) -> Vec<u8> {
-    iterate_general_morphism(k, vtm_morphism, (1 + (3 << (k))) as usize)
+    iterate_general_morphism(k, vtm_morphism, 1 + (3_usize << (k)))
 }
 
 #[test]
@@ -711,7 +711,7 @@ pub fn fibonacci_lyndonfactor(k: u8) -> Vec<u8> {
     iterate_general_morphism_with_startsymbol(
         k,
         fibonacci_lyndonfactor_morphism,
-        (1 + (3 << (k))) as usize,
+        1 + (3_usize << (k)),
         STR_AB,
     )
 }
-- 
2.43.0


From 7c509ad1a9a3c17db6514fb59885674c8e506db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 25/31] fix: compute_stats.sh calls the tools with options they
 know

---
 compute_stats.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compute_stats.sh b/compute_stats.sh
index 09a8294..7550e7d 100755
--- a/compute_stats.sh
+++ b/compute_stats.sh
@@ -8,7 +8,7 @@ function die {
 kFilename="$1"
 [[ -r "$kFilename" ]] || die "cannot read $kFilename"
 
-result_line=$(cargo run --bin=count_sigma -- --input "$kFilename" | grep '^RESULT')
+result_line=$(cargo run --bin=count_sigma -- --infilename "$kFilename" | grep '^RESULT')
 
 echo "dataset & \$n\$ & \$\\sigma\$ & \$z\$ & \$r\$ & \$H_0\$ & \$H_1\$ & \$H_2\$ & \$H_3\$ & \$H_4\$ \\\\\\"
 
@@ -18,13 +18,13 @@ echo -n $result_line | sed 's@.* length=\([0-9]\+\) .*@\1@'
 echo -n " & "
 echo -n $result_line | sed 's@.* sigma=\([0-9]\+\) .*@\1@'
 
-bwtruns=$(cargo run --bin=count_r -- -d --input "$kFilename" | grep '^RESULT' | sed 's@.* bwt_runs=\([0-9]\+\) .*@\1@')
+bwtruns=$(cargo run --bin=count_r -- --infilename "$kFilename" | grep '^RESULT' | sed 's@.* bwt_runs=\([0-9]\+\) .*@\1@')
 echo -n " & $bwtruns " 
-lz77factors=$(cargo run --bin=count_z -- --input "$kFilename" | grep '^RESULT' | sed 's@.* factors=\([0-9]\+\).*@\1@')
+lz77factors=$(cargo run --bin=count_z -- --infilename "$kFilename" | grep '^RESULT' | sed 's@.* factors=\([0-9]\+\).*@\1@')
 echo -n " & $lz77factors " 
 
 for k in $(seq 0 4); do
-	entropy=$(cargo run --bin=entropy -- --order "$k" --input "$kFilename" | grep '^RESULT' | sed 's@.* entropy=\([0-9\.]\+\) .*@\1@')
+	entropy=$(cargo run --bin=entropy -- --order "$k" --infilename "$kFilename" | grep '^RESULT' | sed 's@.* entropy=\([0-9\.]\+\) .*@\1@')
 	echo -n " & $entropy "
 done
 
-- 
2.43.0


From 8bbbd3d4f9326790b0c9ab63f38db24ce20a269f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 26/31] fix: README names tools, words and options as the
 programs do

---
 README.md | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/README.md b/README.md
index f7464d2..c7d9d8d 100644
--- a/README.md
+++ b/README.md
@@ -11,14 +11,14 @@ It currently consists of
    - `count_z` : counts the number of overlapping LZ77 factors
    - `count_lexparse` : counts the number of lexparse factors
    - `entropy` : counts the k-th order empirical entropy
-   - `entropykmer` : counts the k-th order empirical entropy via k-mers, `k \in [1..7]`
+   - `entropy_kmer` : counts the k-th order empirical entropy via k-mers, `k \in [1..7]`
  - word generators with program `word`
    - `enumerate` : enumerates all strings of a specific length and alphabet size, starting with character `a`
-   - `thuemorse` : computes the n-th [Thue-Morse word](https://oeis.org/A010060)
+   - `thue-morse` : computes the n-th [Thue-Morse word](https://oeis.org/A010060)
    - `fibonacci` : computes the n-th [Fibonacci word](https://oeis.org/A003849)
-   - `perioddoubling` computes the n-th [period-doubling sequence](https://oeis.org/A096268)
-   - `debruijn` : computes a binary de Bruijin word of order n
-	 - `FibonacciLyndonFactor` : the n-th Lyndon factor of the infinite Fibonacci word
+   - `period-doubling` computes the n-th [period-doubling sequence](https://oeis.org/A096268)
+   - `binary-de-brujin` : computes a binary de Bruijin word of order n
+	 - `fibonacci-lyndon-factor` : the n-th Lyndon factor of the infinite Fibonacci word
 - `lyndonwords` to generate all Lyndon words up to a specific length for a given alphabet size
  - transforms
    - `reverse` : reverse the input byte-wise
@@ -29,7 +29,7 @@ Compile and run with `cargo` of `rust`-lang:
 
 ```
 cargo build
-cargo run --bin count_sigma -- --file ./data/tudocomp/einstein.en.txt
+cargo run --bin count_sigma -- --infilename ./data/tudocomp/einstein.en.txt
 ```
 
 
-- 
2.43.0


From 697302a40903b71686c24ed0b5a5c81283bc3c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:49 +0000
Subject: [PATCH 27/31] fix: binary_debruijn_word has the documented length of
 2^{k+1}

---
 src/word.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/word.rs b/src/word.rs
index d3afcc0..91232b6 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -554,7 +554,12 @@ pub fn binary_debruijn_word(k: u8) -> Vec<u8> {
     loop {
         let mut first_char = word.pop_front().unwrap();
         word.push_back(CHR_B);
-        if is_necklace(&word, word.len()) {
+        //@ `is_necklace` also accepts prefixes of necklaces
+        let is_smallest_conjugate = (1..n).all(|shift| {
+            let conjugate = word.iter().skip(shift).chain(word.iter().take(shift));
+            word.iter().le(conjugate)
+        });
+        if is_necklace(&word, word.len()) && is_smallest_conjugate {
             first_char = reverse(first_char);
         }
         *word.back_mut().unwrap() = first_char;
-- 
2.43.0


From cbcef1278041bcbe1d512db4023540dcb5070842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 28/31] fix: entropy counts the characters of its input in a
 usize instead of an i32

---
 src/bin/entropy.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/entropy.rs b/src/bin/entropy.rs
index 0b7eff0..a1dfa5b 100644
--- a/src/bin/entropy.rs
+++ b/src/bin/entropy.rs
@@ -15,7 +15,7 @@ use log::info;
 
 fn zero_order_entropy<'a, I: Iterator<Item = &'a u8>>(text_iter: I) -> f64 {
     let mut char_counters: Vec<usize> = vec![0; u8::MAX as usize + 1];
-    let mut total_count = 0;
+    let mut total_count = 0_usize;
     for c in text_iter {
         let index: usize = (*c).into();
         char_counters[index] += 1;
-- 
2.43.0


From 8d31118fcc76490cc591c64ebddc1066afd8c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:56 +0000
Subject: [PATCH 29/31] fix: entropy_kmer counts (k+1)-mers in 64 bits

---
 src/bin/entropy_kmer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/entropy_kmer.rs b/src/bin/entropy_kmer.rs
index 0b514e2..3452469 100644
--- a/src/bin/entropy_kmer.rs
+++ b/src/bin/entropy_kmer.rs
@@ -26,7 +26,7 @@ fn entropy_via_kmer_counting<I: Iterator<Item = std::io::Result<u8>>>(
     order: usize,
 ) -> (f64, usize) {
     let mut kmers = BTreeMap::new();
-    let mut kplusmers = BTreeMap::new();
+    let mut kplusmers: BTreeMap<u64, u64> = BTreeMap::new();
     let mut ringbuf: u64 = 0;
     for _ in 0..order {
         ringbuf <<= 8;
-- 
2.43.0


From 2a823e55fc5535afb5d4878f9f48b80450907b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:17 +0000
Subject: [PATCH 30/31] fix: a word length that does not fit into a usize is an
 error instead of a shorter word

---
 src/word.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/word.rs b/src/word.rs
index 91232b6..60b2597 100644
--- a/src/word.rs
+++ b/src/word.rs
@@ -33,6 +33,7 @@ fn fibonacci_number_estimate(k: u8) -> f64 {
 /// https://oeis.org/A003849
 /// Reference: Patrice Séébold: "Sequences generated by infinitely iterated morphisms". Discret. Appl. Math. 11(3): 255-264 (1985)
 pub fn fibonacci_word(k: u8) -> Vec<u8> {
+    assert!(k < u8::MAX - 1, "the word is too long!");
     let length = (fibonacci_number_estimate(k + 2) + 1.0) as usize + 1;
     let mut text = vec![0_u8; length];
     // let mut text : Vec<u8> = Vec::with_capacity(length);
@@ -97,13 +98,20 @@ fn test_fibonacci_number() {
     }
 }
 
+/// 2^k as the length of a word; a power that does not fit into a usize is an error
+fn power_of_two(k: u8) -> usize {
+    1_usize
+        .checked_shl(k.into())
+        .expect("the word is too long!")
+}
+
 /// algorithm computing the i-th Thue-Morse sequence
 /// https://oeis.org/A010060
 /// It uses the fact that
 /// a) TM_k = TM_k-1 \bar{TM_k-1}
 /// b) TM_k is a prefix of TM_{k+1}
 pub fn thuemorse_word(k: u8) -> Vec<u8> {
-    let n = 1 << k;
+    let n = power_of_two(k);
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
@@ -239,7 +247,7 @@ fn iterate_2morphism(rounds: u8, morphism: fn(u8) -> &'static [u8]) -> Vec<u8> {
     if rounds == 0 {
         return vec![CHR_A];
     }
-    let n = 1 << (rounds);
+    let n = power_of_two(rounds);
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
@@ -414,7 +422,7 @@ pub fn paperfolding_word(i: u8) -> Vec<u8> {
 /// https://oeis.org/A014577
 /// where a = 00, b = 01, c = 10, d = 11
 pub fn quaternary_paperfolding_word(i: u8) -> Vec<u8> {
-    let n = 1 << i;
+    let n = power_of_two(i);
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
@@ -597,7 +605,7 @@ fn test_binary_debrujin_word() {
 /// is https://oeis.org/A209229 and
 /// resembles https://oeis.org/A267366
 pub fn power2_sequence(k: u8) -> Vec<u8> {
-    let n = 1 << k;
+    let n = power_of_two(k);
     let mut text = vec![0_u8; n];
     // let mut text : Vec<u8> = Vec::with_capacity(n);
     // unsafe { text.set_len(n); }
-- 
2.43.0


From c92ec1d4a15b6d496c004b3c662765a0e3bd4f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:49 +0000
Subject: [PATCH 31/31] fix: word creates its output file only after the word
 has been computed

---
 src/bin/word.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/bin/word.rs b/src/bin/word.rs
index 94b8627..f5192ff 100644
--- a/src/bin/word.rs
+++ b/src/bin/word.rs
@@ -42,7 +42,6 @@ fn main() {
     let args = Args::parse();
 
     env_logger::init();
-    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
 
     let fun = match args.name {
         WordName::Fibonacci => word::fibonacci_word,
@@ -57,6 +56,9 @@ fn main() {
         WordName::Power2 => word::power2_sequence,
         WordName::Vtm => word::vtm_word,
     };
-    writer.write_all(fun(args.k).as_slice()).unwrap();
+    let text = fun(args.k);
+
+    let mut writer = io::stream_or_stdout(core::stringopt_stropt(&args.outfilename));
+    writer.write_all(text.as_slice()).unwrap();
     writer.flush().unwrap();
 }
-- 
2.43.0

