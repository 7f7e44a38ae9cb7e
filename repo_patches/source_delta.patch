From 8f2ccff1d6c5d89d482ce247a829ae9899c1c283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:05 +0000
Subject: [PATCH 01/31] fix: report errors that surface when a text file is
 flushed and closed

---
 nisaba/port/file_util.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nisaba/port/file_util.cc b/nisaba/port/file_util.cc
index cff7eb0..439804a 100644
--- a/nisaba/port/file_util.cc
+++ b/nisaba/port/file_util.cc
@@ -98,6 +98,7 @@ absl::StatusOr<std::string> WriteTempTextFile(absl::string_view filename,
     return absl::PermissionDeniedError(absl::StrCat("Failed to open: ", path));
   }
   out << contents;
+  out.close();  // Buffered data may still fail to be written.
   if (!out.good()) {
     return absl::InternalError(absl::StrCat("Failed to write to", path));
   }
@@ -113,6 +114,7 @@ absl::Status WriteTextFile(absl::string_view file_path,
         absl::StrCat("Failed to open: ", file_path));
   }
   output << contents;
+  output.close();  // Buffered data may still fail to be written.
   if (!output) {
     return absl::PermissionDeniedError(absl::StrCat(
         "Failed to write: ", contents.size(), " bytes to ", file_path));
-- 
2.43.0


From d55d510aa4b58caed0d9305c67b8bacb259d92b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:05 +0000
Subject: [PATCH 02/31] fix: return an error when reading a file into a buffer
 fails

---
 nisaba/port/file_util.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nisaba/port/file_util.cc b/nisaba/port/file_util.cc
index 439804a..67f9c32 100644
--- a/nisaba/port/file_util.cc
+++ b/nisaba/port/file_util.cc
@@ -140,10 +140,12 @@ absl::StatusOr<std::string> ReadFile(absl::string_view file_path,
   if (file_size <= 0) {
     return absl::InternalError("File empty or invalid");
   }
-  contents.reserve(file_size);
+  contents.resize(file_size);
   input.seekg(0, std::ios::beg);
-  contents.assign(std::istreambuf_iterator<char>(input),
-                  std::istreambuf_iterator<char>());
+  if (!input.read(&contents[0], file_size)) {
+    return absl::InternalError(absl::StrCat("Failed to read: ",
+                                            std::string(file_path)));
+  }
   return contents;
 }
 
-- 
2.43.0


From 87a4d31727c19202f56c0a4b98fa9a0c465309fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:05 +0000
Subject: [PATCH 03/31] fix: do not return a truncated list of lines after a
 read error

---
 nisaba/port/file_util.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nisaba/port/file_util.cc b/nisaba/port/file_util.cc
index 67f9c32..691d058 100644
--- a/nisaba/port/file_util.cc
+++ b/nisaba/port/file_util.cc
@@ -176,6 +176,9 @@ absl::StatusOr<std::vector<std::string>> ReadLines(
     if (line.size() >= max_length) line[max_length - 1] = '\0';
     input_lines.emplace_back(line);
   }
+  if (ifs.bad()) {
+    return absl::InternalError(absl::StrCat("Failed to read: ", input_file));
+  }
   return input_lines;
 }
 
-- 
2.43.0


From db1baf4f530c0a7ef6c2e60b81e38b63ae726164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:05 +0000
Subject: [PATCH 04/31] fix: let File own its name instead of keeping a view of
 the caller's

---
 nisaba/port/file.cc | 2 +-
 nisaba/port/file.h  | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/nisaba/port/file.cc b/nisaba/port/file.cc
index d1019e4..b93c0dd 100644
--- a/nisaba/port/file.cc
+++ b/nisaba/port/file.cc
@@ -42,7 +42,7 @@ bool File::Exists(const char* const name) { return access(name, F_OK) == 0; }
 
 size_t File::Size() {
   struct stat f_stat;
-  stat(name_.data(), &f_stat);
+  stat(name_.c_str(), &f_stat);
   return f_stat.st_size;
 }
 
diff --git a/nisaba/port/file.h b/nisaba/port/file.h
index 9e43740..90f7481 100644
--- a/nisaba/port/file.h
+++ b/nisaba/port/file.h
@@ -16,6 +16,8 @@
 #ifndef NISABA_PORT_FILE_H_
 #define NISABA_PORT_FILE_H_
 
+#include <string>
+
 #include "google/protobuf/message.h"
 #include "absl/status/status.h"
 #include "absl/strings/string_view.h"
@@ -103,7 +105,7 @@ class File {
   File(FILE* const f_des, const absl::string_view& name);
 
   FILE* f_;
-  const absl::string_view name_;
+  const std::string name_;
 };
 
 namespace file {
-- 
2.43.0


From 364ab8af5260e8a158d5f20dfd2b4eacce9bdb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:05 +0000
Subject: [PATCH 05/31] fix: do not keep a closed stream after fclose()
 reported an error

---
 nisaba/port/file.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/nisaba/port/file.cc b/nisaba/port/file.cc
index b93c0dd..428dc12 100644
--- a/nisaba/port/file.cc
+++ b/nisaba/port/file.cc
@@ -49,12 +49,10 @@ size_t File::Size() {
 bool File::Flush() { return fflush(f_) == 0; }
 
 bool File::Close() {
-  if (fclose(f_) == 0) {
-    f_ = nullptr;
-    return true;
-  } else {
-    return false;
-  }
+  // The stream is gone even if closing it reports an error.
+  FILE* const f_des = f_;
+  f_ = nullptr;
+  return fclose(f_des) == 0;
 }
 
 absl::Status File::Close(int flags) {
-- 
2.43.0


From 25c010e36b3a2ac66da7248c38c1f8294f1abfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:05 +0000
Subject: [PATCH 06/31] fix: let File::ReadToString report read errors as
 intended

---
 nisaba/port/file.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/port/file.cc b/nisaba/port/file.cc
index 428dc12..18b8622 100644
--- a/nisaba/port/file.cc
+++ b/nisaba/port/file.cc
@@ -121,7 +121,7 @@ int64_t File::ReadToString(std::string* const output, uint64_t max_length) {
       break;
     }
   }
-  return (nread >= 0 ? static_cast<int64_t>(output->size()) : -1);
+  return (ferror(f_) == 0 ? static_cast<int64_t>(output->size()) : -1);
 }
 
 size_t File::WriteString(const std::string& line) {
-- 
2.43.0


From a8a5594e62b7e0ef8f511578d03f328646e56e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:17 +0000
Subject: [PATCH 07/31] fix: measure elapsed time with a monotonic clock

---
 nisaba/port/timer.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/nisaba/port/timer.h b/nisaba/port/timer.h
index d0f8ba2..076f862 100644
--- a/nisaba/port/timer.h
+++ b/nisaba/port/timer.h
@@ -15,23 +15,24 @@
 #ifndef NISABA_PORT_TIMER_H_
 #define NISABA_PORT_TIMER_H_
 
-#include "absl/time/clock.h"
-#include "absl/time/time.h"
+#include <chrono>  // NOLINT(build/c++11)
 
 namespace nisaba {
 
-// A helper class for measuring elapsed times.
+// A helper class for measuring elapsed times. Uses a monotonic clock: changes
+// to the system time do not affect the measurements.
 class Timer {
  public:
-  Timer() : start_time_(absl::Now()) {}
+  Timer() : start_time_(std::chrono::steady_clock::now()) {}
 
   double ElapsedMillis() const {
-    return absl::FDivDuration(absl::Now() - start_time_,
-                              absl::Milliseconds(1));
+    return std::chrono::duration<double, std::milli>(
+               std::chrono::steady_clock::now() - start_time_)
+        .count();
   }
 
  private:
-  const absl::Time start_time_;
+  const std::chrono::steady_clock::time_point start_time_;
 };
 
 }  // namespace nisaba
-- 
2.43.0


From a2599a3bdd2cfe76bc93d5e6dea40a743d7a078f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:31 +0000
Subject: [PATCH 08/31] fix: do not keep an archive that failed to be read and
 report the failure

---
 nisaba/scripts/utils/far.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/utils/far.py b/nisaba/scripts/utils/far.py
index c114040..110b0a8 100644
--- a/nisaba/scripts/utils/far.py
+++ b/nisaba/scripts/utils/far.py
@@ -89,11 +89,17 @@ class Far:
   # NOTE: Due to a pytype inconvenience with memoize.Memoize, this users of this
   # and the following function actually have no type information checked
   # ().
-  @functools.lru_cache(maxsize=None)
   def _LoadFar(self) -> pynini.Far:
     return pynini.Far(uf.AsResourcePath(self.path_to_far))
 
   @functools.lru_cache(maxsize=None)
   def Fst(self, rule_name: str) -> 'FstWrapper':
+    # The archive is opened anew for every rule that is not cached yet: once a
+    # read failed, an open archive reports every rule as missing.
     far = self._LoadFar()
-    return self.FstWrapper(far[rule_name])
+    try:
+      return self.FstWrapper(far[rule_name])
+    except KeyError as error:
+      if far.error():
+        raise pynini.FstIOError(f'Read failed: {self.path_to_far}') from error
+      raise
-- 
2.43.0


From 6923cb9ded4cc99017668dc02b396043b67df0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 09/31] fix: let IsFileExist report lookup errors instead of a
 missing file

---
 nisaba/scripts/utils/file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/utils/file.py b/nisaba/scripts/utils/file.py
index b0ee108..b78d957 100644
--- a/nisaba/scripts/utils/file.py
+++ b/nisaba/scripts/utils/file.py
@@ -17,6 +17,7 @@
 import errno
 import os
 import pathlib
+import stat
 
 import pynini
 from rules_python.python.runfiles import runfiles
@@ -34,10 +35,11 @@ def AsResourcePath(filename: os.PathLike[str]) -> os.PathLike[str]:
 def IsFileExist(filename: os.PathLike[str]) -> bool:
   """Checks if a resource file exists."""
   try:
-    if os.path.isfile(AsResourcePath(filename)):
+    # Not os.path.isfile(), which takes every error for a missing file.
+    if stat.S_ISREG(os.stat(AsResourcePath(filename)).st_mode):
       return True
   except IOError as ex:
-    if ex.errno != errno.ENOENT:
+    if ex.errno not in (errno.ENOENT, errno.ENOTDIR):
       raise ex  # Reraise unknown error.
   return False
 
-- 
2.43.0


From fbcdd40209ebb6f3e62b05ed5bb10a1c2a02bf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:05 +0000
Subject: [PATCH 10/31] fix: do not take an unreadable archive entry for a
 missing one

---
 nisaba/scripts/utils/file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/file.py b/nisaba/scripts/utils/file.py
index b78d957..6739c04 100644
--- a/nisaba/scripts/utils/file.py
+++ b/nisaba/scripts/utils/file.py
@@ -91,5 +91,7 @@ def OpenFstFromFarSafe(
   with pynini.Far(AsResourcePath(far_path), "r") as far:
     try:
       return far[fst_name.upper()]
-    except KeyError:
+    except KeyError as error:
+      if far.error():
+        raise pynini.FstIOError(f"Read failed: {far_path}") from error
       return default
-- 
2.43.0


From eddb2952bb4164a1b78982601f1a884426b80016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:13 +0000
Subject: [PATCH 11/31] fix: read letter tables whose items define no mapping

---
 nisaba/scripts/utils/unicode_strings_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/unicode_strings_util.py b/nisaba/scripts/utils/unicode_strings_util.py
index a4f45b1..c574e91 100644
--- a/nisaba/scripts/utils/unicode_strings_util.py
+++ b/nisaba/scripts/utils/unicode_strings_util.py
@@ -163,9 +163,11 @@ def _fill_missing_raw(pb: unicode_strings_pb2.UnicodeStrings) -> None:
     None
   """
   for item in pb.item:
-    item.raw, item.to_raw = convert_item(
+    item.raw, to_raw = convert_item(
         pb.uname_prefix, pb.to_uname_prefix, item
     )
+    if to_raw is not None:  # Absent for items that do not define a mapping.
+      item.to_raw = to_raw
 
 
 def read_textproto(
-- 
2.43.0


From 00106310d2edfa94b86de03a2a2b256661c49fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:13 +0000
Subject: [PATCH 12/31] fix: start the workers of the decoder's thread pools

ThreadPool runs nothing until StartWorkers() is called; without it no word
was transliterated, and the destructor returned with all tasks undone.
---
 nisaba/translit/fst/pairlm_decoder.cc        | 1 +
 nisaba/translit/fst/pairlm_decoder_runner.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index bb6af6c..a22bae7 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -1022,6 +1022,7 @@ StdVectorFst PairLMDecoder::BuildTransliterationFst(
   std::vector<StdVectorFst> translit_fsts(input_words.size());
   {
      ThreadPool pool(max_parallel_tokens_);
+     pool.StartWorkers();
      for (int i = 0; i < input_words.size(); ++i) {
        pool.Schedule([this, i, word_k_best, &translit_fsts, &input_words,
          &fst_params] {
diff --git a/nisaba/translit/fst/pairlm_decoder_runner.cc b/nisaba/translit/fst/pairlm_decoder_runner.cc
index 6b04791..a55f521 100644
--- a/nisaba/translit/fst/pairlm_decoder_runner.cc
+++ b/nisaba/translit/fst/pairlm_decoder_runner.cc
@@ -80,6 +80,7 @@ absl::Status ParallelDecoding(const PairLMDecoderOptions &config,
       std::make_unique<PairLMDecoder>(config);
   std::unique_ptr<ThreadPool> thread_pool =
       std::make_unique<ThreadPool>(num_workers);
+  thread_pool->StartWorkers();
 
   int index = 0;
   for (const auto &input_line : input_lines) {
-- 
2.43.0


From ef0616522ce28c05cd500267c42fec44db784c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:01 +0000
Subject: [PATCH 13/31] fix: look up candidate symbols of segmented words under
 the lock

The words of one line are transliterated in parallel and add candidate
symbols while holding the mutex; segmented words read the table without it.
---
 nisaba/translit/fst/pairlm_decoder.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index a22bae7..edddcae 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -802,7 +802,8 @@ StdVectorFst PairLMDecoder::TransliterateSegmentedWord(
          !aiter.Done(); aiter.Next()) {
       // Initializes new_symbol and cost with first arc in path, then
       // concatenates along the path. Only non-epsilon labels added to
-      // new_symbol.
+      // new_symbol. The candidate symbols are shared with the other words.
+      absl::MutexLock lock(fst_params.mutex);
       const StdArc arc = aiter.Value();
       std::string new_symbol =
           arc.ilabel > 0 ? fst_params.cand_syms.Find(arc.ilabel) : "";
@@ -821,10 +822,8 @@ StdVectorFst PairLMDecoder::TransliterateSegmentedWord(
         next_state = next_arc.nextstate;
       }
       cost += best_concat_strings.Final(next_state).Value();
-      fst_params.mutex.lock();
       AddCandSymArc(new_symbol, cost, word_final_state, fst_params,
                     &translit_result);
-      fst_params.mutex.unlock();
     }
   }
   return translit_result;
-- 
2.43.0


From 09432551ea6b90b9e42a9e308e313c387d099b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:01 +0000
Subject: [PATCH 14/31] fix: give every input word a symbol, even if it was
 seen as a segment

A cached segment of another word is entered in the per-line cache, which
made the decoder skip adding the same string to the input symbols when it
followed as a word of its own; the label check then ended the process.
---
 nisaba/translit/fst/pairlm_decoder.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index edddcae..c6eefac 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -905,10 +905,11 @@ StdVectorFst PairLMDecoder::TransliterateWord(absl::string_view input_word,
                                               int k_best,
                                               TranslitContext &fst_params) {
   fst_params.mutex.lock();
+  // Adds input_word to the input symbols. This is done even if the word has
+  // been seen before, because that may have been as a segment of another word.
+  fst_params.input_syms.AddSymbol(input_word);
   // We haven't seen this word, so initialize it in indexes.
   if (!fst_params.word_transliteration_cache.contains(input_word)) {
-    // Adds input_word since it has not been seen before.
-    fst_params.input_syms.AddSymbol(input_word);
     // Add premixed.
     mutex_.lock_shared();
     const bool override = mix_overrides_.contains(input_word);
-- 
2.43.0


From f2393039605ef1348b5db17809c04c5dd2031788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:01 +0000
Subject: [PATCH 15/31] fix: mix a word with its precomputed candidates only
 once per line

The check whether a word was mixed already and the mixing itself were done
under two separate locks, so that two occurrences of a word in one line could
both mix it.
---
 nisaba/translit/fst/pairlm_decoder.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index c6eefac..db561ad 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -954,17 +954,14 @@ StdVectorFst PairLMDecoder::TransliterateWord(absl::string_view input_word,
   }
 
   // If the word is marked as mixed, no need to mix or cache again, so return
-  // right away.
-  fst_params.mutex.lock_shared();
-  const bool override = fst_params.mixed_with_precomputed.at(input_word);
-  fst_params.mutex.unlock_shared();
-  if (override) {
+  // right away. The lock is kept until the word is mixed and marked, so that
+  // several occurrences of the word in one line mix it only once.
+  absl::MutexLock fst_params_lock(fst_params.mutex);
+  if (fst_params.mixed_with_precomputed.at(input_word)) {
     // Returns cached word transliterations.
-    absl::ReaderMutexLock lock(fst_params.mutex);
     return fst_params.word_transliteration_cache.at(input_word);
   }
 
-  fst_params.mutex.lock();
   // Adds Fst weighting to final state of Fst automaton prior to union.
   QCHECK_EQ(word_transliterations.NumStates(), 2);
   QCHECK_EQ(word_transliterations.Start(), 0);
@@ -999,7 +996,6 @@ StdVectorFst PairLMDecoder::TransliterateWord(absl::string_view input_word,
     }
     mix_overrides_.emplace(input_word);
   }
-  fst_params.mutex.unlock();
 
   return word_transliterations;
 }
-- 
2.43.0


From 17ed7e69d702ba48ab7f1a10334f401c44b054cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:01 +0000
Subject: [PATCH 16/31] fix: report decoder output that could not be written

The output stream is buffered: errors of the last writes and of closing only
show when it is closed, which was left to the destructor.
---
 nisaba/translit/fst/pairlm_decoder_runner.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nisaba/translit/fst/pairlm_decoder_runner.cc b/nisaba/translit/fst/pairlm_decoder_runner.cc
index a55f521..3a3ef20 100644
--- a/nisaba/translit/fst/pairlm_decoder_runner.cc
+++ b/nisaba/translit/fst/pairlm_decoder_runner.cc
@@ -142,6 +142,10 @@ absl::Status RunPairLMDecoder(const PairLMDecoderOptions &config,
     RETURN_IF_ERROR(ParallelDecoding(config, input_lines, k_best, num_workers,
                                      output_file));
   }
+  output_file.close();
+  if (!output_file) {
+    return absl::InternalError(absl::StrCat("Failed to write to ", ofile));
+  }
   LOG(INFO) << absl::StrCat("Done in ", timer.ElapsedMillis(),
                             " msec. Saved results to ", ofile);
   return absl::OkStatus();
-- 
2.43.0


From a3431db761b8576159da61820689679b4773e6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:01 +0000
Subject: [PATCH 17/31] fix: report read errors in word-piece vocabularies

A read error ended the loop over the lines like the end of the file did, and
the model was used with a part of its pieces.
---
 nisaba/translit/fst/wordpiece-segmenter.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nisaba/translit/fst/wordpiece-segmenter.cc b/nisaba/translit/fst/wordpiece-segmenter.cc
index 35923fc..0eb4526 100644
--- a/nisaba/translit/fst/wordpiece-segmenter.cc
+++ b/nisaba/translit/fst/wordpiece-segmenter.cc
@@ -143,6 +143,10 @@ absl::Status WordpieceSegmenter::InitWordpieces(const std::string &wp_symbols) {
       wordpieces.push_back(line_tokens[0]);
     }
   }
+  if (infile.bad()) {
+    return absl::InternalError(
+        absl::StrCat("Failed to read wordpiece file ", wp_symbols));
+  }
   if (infile.is_open()) {
     infile.close();
   }
-- 
2.43.0


From 8b56d7fafa8d0ea0bf1ffd6c6031e091d4609454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:03 +0000
Subject: [PATCH 18/31] fix: read a cached word and its mixing state together

Another call could finish a word between reading its mixing state and its
cached transliterations, which were then mixed with the pair LM a second
time.
---
 nisaba/translit/fst/pairlm_decoder.cc | 15 +++++++--------
 nisaba/translit/fst/pairlm_decoder.h  |  6 ++++--
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index db561ad..82f0c36 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -831,9 +831,10 @@ StdVectorFst PairLMDecoder::TransliterateSegmentedWord(
 
 void PairLMDecoder::ExtractCachedWordTransliterations(
     absl::string_view input_word, TranslitContext &fst_params,
-    StdVectorFst &cached) {
+    StdVectorFst &cached, bool *override) {
   mutex_.lock_shared();
   const auto cached_pairs = global_word_transliteration_cache_.at(input_word);
+  if (override != nullptr) *override = mix_overrides_.contains(input_word);
   mutex_.unlock_shared();
   for (const auto &pair : cached_pairs) {
     AddCandSymArc(pair.first, pair.second,
@@ -910,19 +911,17 @@ StdVectorFst PairLMDecoder::TransliterateWord(absl::string_view input_word,
   fst_params.input_syms.AddSymbol(input_word);
   // We haven't seen this word, so initialize it in indexes.
   if (!fst_params.word_transliteration_cache.contains(input_word)) {
-    // Add premixed.
-    mutex_.lock_shared();
-    const bool override = mix_overrides_.contains(input_word);
-    mutex_.unlock_shared();
-    fst_params.mixed_with_precomputed.insert_or_assign(input_word, override);
-    //  Add global cache.
+    // Add premixed and global cache, as of the same moment.
+    bool override = false;
     StdVectorFst cached;
     cached.SetStart(cached.AddState());
     cached.SetFinal(cached.AddState(), StdArc::Weight::One());
     const bool vocab_check = CheckCache(input_word);
     if (vocab_check) {
-      ExtractCachedWordTransliterations(input_word, fst_params, cached);
+      ExtractCachedWordTransliterations(input_word, fst_params, cached,
+                                        &override);
     }
+    fst_params.mixed_with_precomputed.insert_or_assign(input_word, override);
     fst_params.word_transliteration_cache.insert_or_assign(input_word, cached);
   }
   fst_params.mutex.unlock();
diff --git a/nisaba/translit/fst/pairlm_decoder.h b/nisaba/translit/fst/pairlm_decoder.h
index 6d9a07b..c7041be 100644
--- a/nisaba/translit/fst/pairlm_decoder.h
+++ b/nisaba/translit/fst/pairlm_decoder.h
@@ -159,10 +159,12 @@ class PairLMDecoder {
   void BuildCandToLMFst(absl::string_view new_symbol,
                         ::fst::StdVectorFst *cand_to_lm);
 
-  // Build FST containing transliterations from global cache
+  // Build FST containing transliterations from global cache. If `override` is
+  // given, also reports whether they need no mixing with the pair LM.
   void ExtractCachedWordTransliterations(absl::string_view input_word,
                                          TranslitContext &fst_params,
-                                         ::fst::StdVectorFst &cached);
+                                         ::fst::StdVectorFst &cached,
+                                         bool *override = nullptr);
 
   // Builds the transliteration Fst word-by-word from input_line string.
   ::fst::StdVectorFst BuildTransliterationFst(absl::string_view input_line,
-- 
2.43.0


From 4b769778b36a74591d3674c689833ba0f0a64751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:44 +0000
Subject: [PATCH 19/31] fix: report error rate output that could not be written

The stream was only checked while lines went into its buffer: what was
flushed by its destructor could be lost without a word.
---
 nisaba/translit/tools/calculate_error_rate.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index aade700..cd705b9 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -344,6 +344,8 @@ void MultiRefErrorRate::Write(absl::string_view ofile, bool pairwise_edits) {
   } else {
     WriteErrorRate(output_file);
   }
+  output_file.close();
+  QCHECK(output_file) << "Failed to write " << ofile;
 }
 
 void MultiRefErrorRate::ReadInputs(absl::string_view input_file,
-- 
2.43.0


From 32c42e15f6aff10c9729a2f215e6254ee0f6e735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:44 +0000
Subject: [PATCH 20/31] fix: report k-best output that could not be written

The extractor, ensembler and rejoiner only checked their stream while
lines went into its buffer: what was flushed by its destructor could be
lost without a word.
---
 nisaba/translit/tools/kbest-full-string-util.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nisaba/translit/tools/kbest-full-string-util.cc b/nisaba/translit/tools/kbest-full-string-util.cc
index 9c9d4c8..69e97e6 100644
--- a/nisaba/translit/tools/kbest-full-string-util.cc
+++ b/nisaba/translit/tools/kbest-full-string-util.cc
@@ -530,6 +530,8 @@ void EnsembleFiles::RunEnsembleAndOutput(int kbest, const std::string &ofile) {
       QCHECK(output_file);
     }
   }
+  output_file.close();
+  QCHECK(output_file) << "Failed to write " << ofile;
 }
 
 std::vector<std::pair<std::string, double>> KbestExtractor::GetBest(
@@ -614,6 +616,8 @@ void KbestExtractor::RunExtractorAndOutput(const std::string &ofile, int kbest,
       QCHECK(output_file);
     }
   }
+  output_file.close();
+  QCHECK(output_file) << "Failed to write " << ofile;
 }
 
 void KbestRejoiner::InitializeKbestRejoiner(absl::string_view ifile,
@@ -706,6 +710,8 @@ void KbestRejoiner::RunRejoinerAndOutput(const std::string &ofile) {
     }
     ++output_idx;
   }
+  output_file.close();
+  QCHECK(output_file) << "Failed to write " << ofile;
 }
 
 }  // namespace tools
-- 
2.43.0


From f7e80541aac8bc965568155caa19380a5cd1478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:44 +0000
Subject: [PATCH 21/31] fix: let the last list count for the rejoiner's default
 k

Without --kbest, the largest input list sets how many candidates are
kept, but the lists of the last output were left out; with a single
output k was 0 and no path was found.
---
 nisaba/translit/tools/kbest-full-string-util.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nisaba/translit/tools/kbest-full-string-util.cc b/nisaba/translit/tools/kbest-full-string-util.cc
index 69e97e6..e647c73 100644
--- a/nisaba/translit/tools/kbest-full-string-util.cc
+++ b/nisaba/translit/tools/kbest-full-string-util.cc
@@ -646,6 +646,13 @@ void KbestRejoiner::InitializeKbestRejoiner(
     QCHECK_LE(output_indices_[i], output_indices_[i - 1] + 1);
   }
   int max_kbest = 0;
+  auto update_max_kbest =
+      [&max_kbest](
+          absl::Span<const std::vector<std::pair<std::string, double>>> lists) {
+        for (const auto &list : lists) {
+          max_kbest = std::max(max_kbest, static_cast<int>(list.size()));
+        }
+      };
   if (!input_lines.empty()) {
     std::vector<std::vector<std::pair<std::string, double>>> curr_list(1);
     std::string last_input;
@@ -657,11 +664,7 @@ void KbestRejoiner::InitializeKbestRejoiner(
       if (!last_input.empty() && seq[0] != last_input) {
         QCHECK_LT(output_idx, output_indices_.size() - 1);
         if (output_indices_[output_idx] != output_indices_[output_idx + 1]) {
-          for (const auto &curr_set : curr_list) {
-            if (curr_set.size() > max_kbest) {
-              max_kbest = curr_set.size();
-            }
-          }
+          update_max_kbest(curr_list);
           kbest_lists_.push_back(curr_list);
           curr_list.clear();
         }
@@ -671,6 +674,7 @@ void KbestRejoiner::InitializeKbestRejoiner(
       last_input = seq[0];
       curr_list.back().push_back(std::make_pair(seq[1], std::stod(seq[2])));
     }
+    update_max_kbest(curr_list);
     kbest_lists_.push_back(curr_list);
     QCHECK_EQ(kbest_lists_.size(), output_indices_.back() + 1);
   }
-- 
2.43.0


From bae9773d334b885ce303fd8139a501fb1bab4727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:12 +0000
Subject: [PATCH 22/31] fix: a grammar archive that cannot be read completely
 is not loaded

AbstractGrmManager::LoadArchive took a read error after the first entry for the
end of the archive and reported success with the rest of the rules missing, and
rewinding an archive without entries is undefined in OpenFst (it crashed before
the 'empty FAR' message).
---
 .../interim/grm2/thrax/abstract-grm-manager.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/nisaba/interim/grm2/thrax/abstract-grm-manager.h b/nisaba/interim/grm2/thrax/abstract-grm-manager.h
index b54dd15..c0bd45b 100644
--- a/nisaba/interim/grm2/thrax/abstract-grm-manager.h
+++ b/nisaba/interim/grm2/thrax/abstract-grm-manager.h
@@ -154,21 +154,28 @@ template <typename Arc>
 template <typename FarReader>
 bool AbstractGrmManager<Arc>::LoadArchive(FarReader* reader,
                                           absl::string_view filename) {
-  fsts_.clear();
+  // Reads into a map of its own, so that a failure leaves no partial grammar.
+  FstMap fsts;
   int num_read_fsts = 0;
-  for (reader->Reset(); !reader->Done(); reader->Next()) {
+  // A reader that was just opened is at its first entry, if it has one.
+  for (; !reader->Done(); reader->Next()) {
     const auto& name = reader->GetKey();
-    fsts_[name] = std::make_unique<MutableTransducer>(*reader->GetFst());
+    fsts[name] = std::make_unique<MutableTransducer>(*reader->GetFst());
     ++num_read_fsts;
   }
-  if (fsts_.size() != num_read_fsts) {
-      LOG(ERROR) << num_read_fsts << " Fsts read but only " << fsts_.size()
+  if (reader->Error()) {
+    LOG(ERROR) << "Error reading FAR: " << filename;
+    return false;
+  }
+  if (fsts.size() != num_read_fsts) {
+      LOG(ERROR) << num_read_fsts << " Fsts read but only " << fsts.size()
                  << " Fsts saved.";
   }
-  if (fsts_.size() == 0) {
+  if (fsts.empty()) {
     LOG(ERROR) << filename << " is an empty FAR: Did you `export` any rules?";
     return false;
   }
+  fsts_ = std::move(fsts);
   SortRuleInputLabels();
   return true;
 }
-- 
2.43.0


From e6aebbd5dd7b543619e2ff52cb3c41ad7cd88bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:13 +0000
Subject: [PATCH 23/31] fix: RewriteManager::Load reports a FAR that could not
 be read to its end

A read error was taken for the end of the archive, and an archive whose number
of entries could not be read was taken for an empty one.
---
 nisaba/interim/grm2/rewrite/rewrite_manager.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nisaba/interim/grm2/rewrite/rewrite_manager.h b/nisaba/interim/grm2/rewrite/rewrite_manager.h
index 77ad6da..4437a98 100644
--- a/nisaba/interim/grm2/rewrite/rewrite_manager.h
+++ b/nisaba/interim/grm2/rewrite/rewrite_manager.h
@@ -184,6 +184,15 @@ bool RewriteManager<Arc>::Load(const std::string &filename) {
   for (; !reader->Done(); reader->Next()) {
     AddToMap(reader->GetKey(), *reader->GetFst());
   }
+  if (reader->Error()) {
+    LOG(ERROR) << "Error reading FAR: " << filename;
+    Reset();
+    return false;
+  }
+  if (map_.empty() && !gensyms_) {
+    LOG(ERROR) << filename << " is an empty FAR";
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From cea7f6911bfb7ad0475aa1c0e65fea5b0dbcc5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:42 +0000
Subject: [PATCH 24/31] fix: Grammars sharing one GrmManager no longer each
 delete it

---
 nisaba/scripts/brahmic/grammar.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nisaba/scripts/brahmic/grammar.h b/nisaba/scripts/brahmic/grammar.h
index 4d90e42..4c4a07e 100644
--- a/nisaba/scripts/brahmic/grammar.h
+++ b/nisaba/scripts/brahmic/grammar.h
@@ -56,12 +56,13 @@ class Grammar {
       : Grammar(kFarPath, far_name, fst_name) {}
 
   // Takes a GrmManager that was previously created and loaded from a file. The
-  // same manager can be shared with other Grammars.
+  // same manager can be shared with other Grammars, so it is not owned by this
+  // one and has to outlive it.
   Grammar(absl::string_view far_name, absl::string_view fst_name,
           thrax::GrmManager *grm_manager)
       : far_file_path_(MakeFarFilePath(kFarPath, far_name)),
         fst_name_(absl::AsciiStrToUpper(fst_name)),
-        grm_mgr_(grm_manager) {}
+        grm_mgr_(grm_manager, [](thrax::GrmManager *) {}) {}
 
   // Loads the FAR file and verifies that the FST is found.
   absl::Status Load();
-- 
2.43.0


From 7f011af97f090a14f05752efdc5ca16f3329787e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:42 +0000
Subject: [PATCH 25/31] fix: byte and UTF-8 symbol tables are created once,
 under the lock

Two threads asking first could both generate a table, the second replacing the
one already handed out; symbols were added without the lock.
---
 nisaba/interim/grm2/thrax/walker/util/function/symbols.cc | 6 ++++--
 nisaba/interim/grm2/thrax/walker/util/function/symbols.h  | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/nisaba/interim/grm2/thrax/walker/util/function/symbols.cc b/nisaba/interim/grm2/thrax/walker/util/function/symbols.cc
index d584d0b..d6b379d 100644
--- a/nisaba/interim/grm2/thrax/walker/util/function/symbols.cc
+++ b/nisaba/interim/grm2/thrax/walker/util/function/symbols.cc
@@ -149,29 +149,32 @@ SymbolTableBuilder::SymbolTableBuilder()
     : byte_symbols_(nullptr), utf8_symbols_(nullptr) {}
 
 const ::fst::SymbolTable* SymbolTableBuilder::GetByteSymbolTable() {
+  absl::MutexLock lock(map_mutex_);
   if (!byte_symbols_) GenerateByteSymbolTable();
   return byte_symbols_.get();
 }
 
 const ::fst::SymbolTable* SymbolTableBuilder::GetUtf8SymbolTable() {
+  absl::MutexLock lock(map_mutex_);
   if (!utf8_symbols_) GenerateUtf8SymbolTable();
   return utf8_symbols_.get();
 }
 
 void SymbolTableBuilder::AddToByteSymbolTable(std::string symbol,
                                               int64_t label) {
+  absl::MutexLock lock(map_mutex_);
   if (!byte_symbols_) return;
   byte_symbols_->AddSymbol(symbol, label);
 }
 
 void SymbolTableBuilder::AddToUtf8SymbolTable(std::string symbol,
                                               int64_t label) {
+  absl::MutexLock lock(map_mutex_);
   if (!utf8_symbols_) return;
   utf8_symbols_->AddSymbol(symbol, label);
 }
 
 void SymbolTableBuilder::GenerateByteSymbolTable() {
-  absl::MutexLock lock(map_mutex_);
   byte_symbols_ = std::make_unique<::fst::SymbolTable>(kByteSymbolTableName);
   byte_symbols_->AddSymbol("<epsilon>", 0);
   char c_str[5];
@@ -187,7 +190,6 @@ void SymbolTableBuilder::GenerateByteSymbolTable() {
 }
 
 void SymbolTableBuilder::GenerateUtf8SymbolTable() {
-  absl::MutexLock lock(map_mutex_);
   utf8_symbols_ = std::make_unique<::fst::SymbolTable>(kUtf8SymbolTableName);
   utf8_symbols_->AddSymbol("<epsilon>", 0);
   for (int c = 1; c < 0x10000; ++c) {
diff --git a/nisaba/interim/grm2/thrax/walker/util/function/symbols.h b/nisaba/interim/grm2/thrax/walker/util/function/symbols.h
index b5005cf..cba5513 100644
--- a/nisaba/interim/grm2/thrax/walker/util/function/symbols.h
+++ b/nisaba/interim/grm2/thrax/walker/util/function/symbols.h
@@ -48,6 +48,7 @@ class SymbolTableBuilder {
   void AddToUtf8SymbolTable(std::string symbol, int64_t label);
 
  private:
+  // Called with map_mutex_ held.
   void GenerateByteSymbolTable();
 
   inline void GenerateUtf8SymbolTable();
-- 
2.43.0


From b26cd750cb23fd3d3dea754b0b08a650df3004c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:24 +0000
Subject: [PATCH 26/31] fix: give each lattice and node its own default FST and
 error node

---
 .../scripts/natural_translit/utils/lattice.py  | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/nisaba/scripts/natural_translit/utils/lattice.py b/nisaba/scripts/natural_translit/utils/lattice.py
index 8d7f1bb..57d9d0e 100644
--- a/nisaba/scripts/natural_translit/utils/lattice.py
+++ b/nisaba/scripts/natural_translit/utils/lattice.py
@@ -14,6 +14,8 @@
 
 """Lattice class for building aligner FSTs."""
 
+from typing import Union
+
 import pynini as pyn
 from nisaba.scripts.natural_translit.utils import log_op as log
 from nisaba.scripts.natural_translit.utils import type_op as ty
@@ -41,12 +43,12 @@ class Node(ty.Thing):
       text: str = '',
       x: int = -1,
       y: int = -1,
-      fst: pyn.Fst = pyn.Fst(),
+      fst: Union[pyn.Fst, ty.Nothing] = ty.UNSPECIFIED,
   ):
     super().__init__(alias, text)
     self.x = x
     self.y = y
-    self.fst = fst
+    self.fst = fst if isinstance(fst, pyn.Fst) else pyn.Fst()
     self.state = ty.UNASSIGNED
 
   def __str__(self):
@@ -78,22 +80,22 @@ class Lattice(ty.Thing):
       alias: str,
       width: int,
       height: int,
-      fst: pyn.Fst = pyn.Fst(),
-      error: Node = Node('error'),
+      fst: Union[pyn.Fst, ty.Nothing] = ty.UNSPECIFIED,
+      error: Union[Node, ty.Nothing] = ty.UNSPECIFIED,
       populate: bool = False,
   ):
     super().__init__(alias)
     self.text = alias
-    self.fst = fst
+    self.fst = fst if isinstance(fst, pyn.Fst) else pyn.Fst()
     self.width = width
     self.height = height
     self._nodes = [
         [self._new_node(x, y) for x in range(self.width)]
         for y in range(self.height)
     ]
-    self.error = error
-    if error.fst is not self.fst:
-      error.fst = self.fst
+    self.error = error if isinstance(error, Node) else Node('error')
+    if self.error.fst is not self.fst:
+      self.error.fst = self.fst
     if not self.error.has_state():
       self.error.state = self.fst.add_state()
     if populate:
-- 
2.43.0


From 443424b0432514cbf0834a4d146459d84214a757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:44 +0000
Subject: [PATCH 27/31] fix: let a seeded sample not depend on the order in
 which words were decoded

---
 nisaba/translit/fst/pairlm_decoder.cc | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/nisaba/translit/fst/pairlm_decoder.cc b/nisaba/translit/fst/pairlm_decoder.cc
index 82f0c36..b304878 100644
--- a/nisaba/translit/fst/pairlm_decoder.cc
+++ b/nisaba/translit/fst/pairlm_decoder.cc
@@ -379,13 +379,29 @@ StdVectorFst RemoveContext(const StdVectorFst &lattice_fst) {
   return contextless_fst;
 }
 
-// Samples a single path through the input lattice FST.
+// Samples a single path through the input lattice FST. The labels of the
+// candidates depend on the order in which the words were decoded, so the arcs
+// are put in the order of the candidates for the sample to depend on the seed
+// only.
 StdVectorFst SampleFromLattice(const StdVectorFst &transliteration_fst,
-                               uint64_t seed) {
+                               const SymbolTable &cand_syms, uint64_t seed) {
+  StdVectorFst lattice_fst(transliteration_fst);
+  for (int st = 0; st < lattice_fst.NumStates(); ++st) {
+    std::vector<std::pair<std::string, StdArc>> arcs;
+    for (ArcIterator<StdVectorFst> aiter(lattice_fst, st); !aiter.Done();
+         aiter.Next()) {
+      arcs.emplace_back(cand_syms.Find(aiter.Value().olabel), aiter.Value());
+    }
+    std::stable_sort(arcs.begin(), arcs.end(), [](const auto &a, const auto &b) {
+      return a.first < b.first;
+    });
+    lattice_fst.DeleteArcs(st);
+    for (const auto &arc : arcs) lattice_fst.AddArc(st, arc.second);
+  }
   LogProbArcSelector<StdArc> selector(seed);
   RandGenOptions<LogProbArcSelector<StdArc>> opts(selector);
   StdVectorFst sampled_fst;
-  RandGen(transliteration_fst, &sampled_fst, opts);
+  RandGen(lattice_fst, &sampled_fst, opts);
   return sampled_fst;
 }
 
@@ -1210,7 +1226,8 @@ StdVectorFst PairLMDecoder::TransliterateString(absl::string_view input_line,
   }
   if (sample_from_k_best_) {
     transliteration_fst =
-        impl::SampleFromLattice(transliteration_fst, random_seed_);
+        impl::SampleFromLattice(transliteration_fst, fst_params.cand_syms,
+                                random_seed_);
   }
   transliteration_fst.SetInputSymbols(&fst_params.input_syms);
   transliteration_fst.SetOutputSymbols(&fst_params.cand_syms);
-- 
2.43.0


From dbe40dbdcc5020557d7b854e1f217a59df8cd508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:48 +0000
Subject: [PATCH 28/31] fix: read rewrite rules as plain text

Fields starting with a quote swallowed the following fields and lines, and
columns holding digits only were turned into numbers (leading zeros lost).
---
 nisaba/scripts/utils/rule.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nisaba/scripts/utils/rule.py b/nisaba/scripts/utils/rule.py
index d98b12c..54caa13 100644
--- a/nisaba/scripts/utils/rule.py
+++ b/nisaba/scripts/utils/rule.py
@@ -60,6 +60,7 @@ CDRewrites of the FSTs from each rule.
 """
 
 from collections.abc import Iterable, Iterator
+import csv
 import itertools as it
 import os
 from typing import NamedTuple
@@ -84,8 +85,10 @@ def rules_from_string_file(file: os.PathLike[str]) -> Iterator[Rule]:
 
 def rules_from_string_path(file: os.PathLike[str]) -> Iterator[Rule]:
   """Yields string rules from a text file with unweighted string maps."""
-  with pathlib.Path(file).open('rt') as f:
+  with pathlib.Path(file).open('rt', encoding='utf8') as f:
+    # Quotes and digits are ordinary text.
     df = pd.read_csv(f, sep='\t', comment='#', escapechar='\\',
+                     quoting=csv.QUOTE_NONE, dtype=str,
                      names=['lhs', 'rhs'], na_filter=False)
     for row in df.itertuples(index=False, name='Rule'):
       if not row.lhs:
-- 
2.43.0


From c2885aba86a5e616f142e780e0c6c6f54fa503e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:41 +0000
Subject: [PATCH 29/31] fix: keep pairwise edits aligned with examples when an
 index is unused

When no line has some example index, no entry was added to pairwise_edits_
for it, so that all later examples were written with the edits of their
successor (and the last one with memory past the end of the vector).
---
 nisaba/translit/tools/calculate_error_rate.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nisaba/translit/tools/calculate_error_rate.cc b/nisaba/translit/tools/calculate_error_rate.cc
index cd705b9..84e0683 100644
--- a/nisaba/translit/tools/calculate_error_rate.cc
+++ b/nisaba/translit/tools/calculate_error_rate.cc
@@ -298,6 +298,9 @@ void MultiRefErrorRate::WriteErrorRate(std::ofstream &output_file) {
 
 void MultiRefErrorRate::WritePairwiseEdits(std::ofstream &output_file) {
   for (int idx = 0; idx < references_.size(); ++idx) {
+    if (references_[idx].empty()) {
+      continue;  // No example with this index.
+    }
     // Writes system outputs with probabilities.
     impl::LineToFile(output_file, "{\"hyp\": {", /*newline=*/false);
     const auto p1 =
@@ -455,6 +458,9 @@ void MultiRefErrorRate::CalculatePairwiseErrors(int idx) {
 void MultiRefErrorRate::CalculateErrorRate(int idx, bool pairwise_edits) {
   if (references_[idx].empty()) {
     // Nothing to do for this example.
+    if (pairwise_edits) {
+      pairwise_edits_.emplace_back();  // Keeps one entry per example.
+    }
     return;
   }
   if (pairwise_edits) {
-- 
2.43.0


From d0bfd9b62614035101bd1e8115517294455d5412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:28 +0000
Subject: [PATCH 30/31] fix: do not return an indeterminate file size when stat
 fails

---
 nisaba/port/file.cc | 5 ++++-
 nisaba/port/file.h  | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/nisaba/port/file.cc b/nisaba/port/file.cc
index 18b8622..3ef5af2 100644
--- a/nisaba/port/file.cc
+++ b/nisaba/port/file.cc
@@ -42,7 +42,10 @@ bool File::Exists(const char* const name) { return access(name, F_OK) == 0; }
 
 size_t File::Size() {
   struct stat f_stat;
-  stat(name_.c_str(), &f_stat);
+  if (stat(name_.c_str(), &f_stat) != 0) {
+    LOG(ERROR) << "Could not determine the size of " << name_;
+    return 0;
+  }
   return f_stat.st_size;
 }
 
diff --git a/nisaba/port/file.h b/nisaba/port/file.h
index 90f7481..1dbaf12 100644
--- a/nisaba/port/file.h
+++ b/nisaba/port/file.h
@@ -81,7 +81,7 @@ class File {
   // Flushes buffer.
   bool Flush();
 
-  // Returns file size.
+  // Returns file size, 0 if it cannot be determined.
   size_t Size();
 
   // Inits internal data structures.
-- 
2.43.0


From 7a8781c6cd7c34f863891da5b846f3a860996975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:06 +0000
Subject: [PATCH 31/31] fix: let --input_lm_fst_file set the language model

---
 nisaba/translit/fst/pairlm_decoder_main.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nisaba/translit/fst/pairlm_decoder_main.cc b/nisaba/translit/fst/pairlm_decoder_main.cc
index 1779fcd..cc5cc74 100644
--- a/nisaba/translit/fst/pairlm_decoder_main.cc
+++ b/nisaba/translit/fst/pairlm_decoder_main.cc
@@ -84,7 +84,7 @@ bool Run() {
     config.set_pairlm_file(absl::GetFlag(FLAGS_input_pairlm_fst_file));
   }
   if (!absl::GetFlag(FLAGS_input_lm_fst_file).empty()) {
-    config.set_pairlm_file(absl::GetFlag(FLAGS_input_lm_fst_file));
+    config.set_lm_file(absl::GetFlag(FLAGS_input_lm_fst_file));
   }
 
   // Run the decoder.
-- 
2.43.0

