From f7ba1ac10ea0c4d80bede1b200ed3d98ff890783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:34 +0000
Subject: [PATCH 01/20] fix: keep citation aliases and saved boxes per handler
 instance

Both were class-level dicts: instances that were never cleared wrote into the
shared dict, so aliases and boxes of one document leaked into documents parsed
later by any parser in the process.
---
 latex2json/parser/handlers/content_command.py | 4 +++-
 latex2json/parser/handlers/equation.py        | 1 +
 latex2json/parser/packages/boxes.py           | 8 +++++---
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index ef0cc6d..f8d6687 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -85,7 +85,9 @@ GENERIC_COMMAND_PATTERN = re.compile(r"\\[a-zA-Z]+\b")
 
 
 class ContentCommandHandler(TokenHandler):
-    citealias = {}  # key, alias/title
+    def __init__(self, process_content_fn: Optional[Callable] = None):
+        super().__init__(process_content_fn)
+        self.citealias = {}  # key, alias/title
 
     def clear(self):
         self.citealias = {}
diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index 9d723df..dc65f84 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -64,6 +64,7 @@ class EquationHandler(TokenHandler):
 
     def clear(self):
         self.box_handler.clear()
+        self.content_command.clear()
 
     def can_handle(self, content: str) -> bool:
         """Check if content contains an equation pattern."""
diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index 6dd435a..40f7352 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Tuple, Optional
+from typing import Callable, Dict, List, Tuple, Optional
 import re
 
 from latex2json.parser.handlers.base import TokenHandler
@@ -66,8 +66,10 @@ def parse_varname_from_brace_or_backslash(var_name: str) -> Tuple[Optional[str],
 
 
 class BoxHandler(TokenHandler):
-    saved_boxes = {}
-    numbered_boxes = {}  # Add storage for numbered boxes
+    def __init__(self, process_content_fn: Optional[Callable] = None):
+        super().__init__(process_content_fn)
+        self.saved_boxes = {}
+        self.numbered_boxes = {}  # Add storage for numbered boxes
 
     def can_handle(self, content: str) -> bool:
         return bool(
-- 
2.43.0


From dcefc0b5f05460b6842e62c6d79df4a06d5703f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 02/20] fix: report an unreadable or unparsable main file
 instead of returning an empty document

---
 latex2json/parser/tex_parser.py | 8 +++++++-
 latex2json/tex_reader.py        | 3 ++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 38e2e41..873da9d 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -650,7 +650,7 @@ class LatexParser:
         return content
 
     def parse_file(
-        self, file_path: str, extension: str = ".tex"
+        self, file_path: str, extension: str = ".tex", strict: bool = False
     ) -> List[Dict[str, str]]:
         """
         Parse a LaTeX file directly from the file path.
@@ -658,6 +658,8 @@ class LatexParser:
         Args:
             file_path: Path to the LaTeX file to parse
             extension: File extension to try if not found (default: .tex)
+            strict: Raise if the file cannot be read or parsed, instead of
+                logging the failure and returning no tokens (default: False)
 
         Returns:
             List[Dict[str, str]]: List of parsed tokens
@@ -673,6 +675,8 @@ class LatexParser:
                 content = read_tex_file_content(file_path, extension=extension)
             except FileNotFoundError:
                 self.logger.error(f"File not found: {file_path}", exc_info=True)
+                if strict:
+                    raise
                 return []
 
             preprocess = should_preprocess_file(file_path)
@@ -680,6 +684,8 @@ class LatexParser:
             self.logger.info(f"Finished parsing file: {file_path}")
             return out
         except Exception as e:
+            if strict:
+                raise
             self.logger.error(
                 f"Failed to parse file: {file_path}, error: {str(e)}", exc_info=True
             )
diff --git a/latex2json/tex_reader.py b/latex2json/tex_reader.py
index cc98317..fdb7ca3 100644
--- a/latex2json/tex_reader.py
+++ b/latex2json/tex_reader.py
@@ -114,7 +114,8 @@ class TexReader:
         def _process() -> ProcessingResult:
             self.clear()
             self._verify_file_exists(file_path)
-            tokens = self.parser.parse_file(file_path)
+            # a failure of the main file must not look like an empty document
+            tokens = self.parser.parse_file(file_path, strict=True)
             output = self.token_builder.build(tokens)
             color_map = self.parser.get_colors()
             self.clear()
-- 
2.43.0


From 63c094808bb45b7b1d66bea12f8b4ca9640bd97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 03/20] fix: log diagnostics instead of printing them, a broken
 standard output must not abort a conversion

---
 .../parser/handlers/command_processor.py      | 10 ++++++----
 latex2json/tex_file_extractor.py              | 20 ++++++++++++-------
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 0fe83da..66482ff 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -1,5 +1,6 @@
 # src/commands.py
 
+import logging
 import re
 from typing import List, Dict, Optional, TypedDict, Callable, Pattern, Tuple
 from latex2json.latex_maps.latex_unicode_converter import LatexUnicodeConverter
@@ -19,6 +20,7 @@ from latex2json.parser.handlers.new_definition import (
     command_pattern,
 )
 
+logger = logging.getLogger(__name__)
 
 CSNAME_PATTERN = re.compile(
     START_CSNAME_PATTERN.pattern + r"(.*)" + END_CSNAME_PATTERN.pattern
@@ -149,7 +151,7 @@ class CommandProcessor:
             }
             self.let_commands[command_name] = command
         except Exception as e:
-            print(f"Error processing newcommand {command_name}: {e}")
+            logger.error("Error processing newcommand %s: %s", command_name, e)
             raise e
 
     def _parse_definition_conditionals(self, definition: str, usage_pattern: str):
@@ -247,7 +249,7 @@ class CommandProcessor:
             }
             self.commands[command_name] = command
         except Exception as e:
-            print(f"Error processing newcommand {command_name}: {e}")
+            logger.error("Error processing newcommand %s: %s", command_name, e)
             raise e
 
     def process_paired_delimiter(
@@ -280,7 +282,7 @@ class CommandProcessor:
             }
             self.commands[command_name] = command
         except Exception as e:
-            print(f"Error processing paired delimiter {command_name}: {e}")
+            logger.error("Error processing paired delimiter %s: %s", command_name, e)
             raise e
 
     def process_newdef(
@@ -323,7 +325,7 @@ class CommandProcessor:
             }
             self.commands[command_name] = command
         except Exception as e:
-            print(f"Error processing newdef {command_name}: {e}")
+            logger.error("Error processing newdef %s: %s", command_name, e)
             raise e
 
     def process_newif(self, var_name: str):
diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index d8ef713..94099cc 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -1,5 +1,6 @@
 import os
 import gzip
+import logging
 import tarfile
 import tempfile
 import shutil
@@ -9,6 +10,8 @@ from contextlib import contextmanager
 from latex2json.utils.tex_utils import strip_latex_comments
 from latex2json.utils.encoding import read_file
 
+logger = logging.getLogger(__name__)
+
 
 class TexFileExtractor:
     """A class to handle reading and processing TeX files from various sources."""
@@ -55,7 +58,7 @@ class TexFileExtractor:
                             # Return both the relative path and the containing folder
                             return os.path.relpath(full_path, folder_path), root
                     except Exception as e:
-                        print(f"Error reading {full_path}: {str(e)}")
+                        logger.warning("Error reading %s: %s", full_path, e)
                         continue
 
         raise FileNotFoundError(
@@ -96,8 +99,8 @@ class TexFileExtractor:
                                 os.path.abspath(temp_dir)
                             )
                         ):
-                            print(
-                                f"[WARNING] Skipping potentially unsafe path in zip: {member}"
+                            logger.warning(
+                                "Skipping potentially unsafe path in zip: %s", member
                             )
                             continue
                         safe_members.append(member)
@@ -126,8 +129,9 @@ class TexFileExtractor:
                                     os.path.abspath(temp_dir)
                                 )
                             ):
-                                print(
-                                    f"[WARNING] Skipping potentially unsafe path in tar.gz: {member.name}"
+                                logger.warning(
+                                    "Skipping potentially unsafe path in tar.gz: %s",
+                                    member.name,
                                 )
                                 continue
                             safe_members.append(member)
@@ -146,8 +150,10 @@ class TexFileExtractor:
                     EOFError,
                     gzip.BadGzipFile,
                 ) as e:
-                    print(
-                        f"[INFO] Failed to open {compressed_path} as tar.gz: {e}. Checking if it's a single gzipped file."
+                    logger.info(
+                        "Failed to open %s as tar.gz: %s. Checking if it's a single gzipped file.",
+                        compressed_path,
+                        e,
                     )
                     # Fall through to check if it's a single .gz file if the extension matches
 
-- 
2.43.0


From c6f5a11fed81c06daa6b926fd89e025599ed6b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 04/20] fix: verify the gzip checksum of tar archives and never
 convert a damaged one as if it were TeX

---
 latex2json/tex_file_extractor.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index 94099cc..de58e6c 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -114,9 +114,17 @@ class TexFileExtractor:
                 processed = True
 
             elif compressed_path.endswith((".tar.gz", ".tgz")):
+                is_tar = False
                 try:
                     # Open .tar.gz directly using tarfile
-                    with tarfile.open(compressed_path, "r:gz") as tar:
+                    with gzip.open(compressed_path, "rb") as gz, tarfile.open(
+                        fileobj=gz, mode="r:"
+                    ) as tar:
+                        is_tar = True
+                        tar.getmembers()
+                        # Read up to the end: only there gzip verifies the checksum
+                        while gz.read(1024 * 1024):
+                            pass
                         # Security check for unsafe paths before extraction
                         safe_members = []
                         for member in tar.getmembers():
@@ -150,6 +158,11 @@ class TexFileExtractor:
                     EOFError,
                     gzip.BadGzipFile,
                 ) as e:
+                    if is_tar:
+                        # A damaged tar archive is not a single gzipped file
+                        raise IOError(
+                            f"Could not process {compressed_path}. Damaged archive: {e}"
+                        ) from e
                     logger.info(
                         "Failed to open %s as tar.gz: %s. Checking if it's a single gzipped file.",
                         compressed_path,
-- 
2.43.0


From d6fcf1d022a59b4cf7c47ca58fa5d2762d6f578e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 05/20] fix: report a failing check of the input path as a
 documented error

---
 latex2json/tex_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/tex_reader.py b/latex2json/tex_reader.py
index fdb7ca3..e9e7c7d 100644
--- a/latex2json/tex_reader.py
+++ b/latex2json/tex_reader.py
@@ -255,9 +255,9 @@ class TexReader:
             TexProcessingError: If processing fails
         """
         input_path = Path(input_path)
-        self._verify_file_exists(input_path)
 
         def _process() -> ProcessingResult:
+            self._verify_file_exists(input_path)
             if input_path.is_dir():
                 return self.process_folder(input_path)
             elif input_path.suffix in [".gz", ".tar.gz", ".tgz", ".zip"]:
-- 
2.43.0


From d6fa3e5a88e43df910ef7a74307fecba7d708d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 06/20] fix: remove the temporary folder of an archive whose
 processing failed

---
 latex2json/tex_file_extractor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index de58e6c..9513654 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -83,6 +83,7 @@ class TexFileExtractor:
         main_tex = None
         main_folder_abs = None  # Store the absolute path found by find_main_tex_file
         processed = False
+        handed_over = False  # whether the caller finished without an error
 
         try:
             if compressed_path.endswith(".zip"):
@@ -221,10 +222,11 @@ class TexFileExtractor:
 
             # Yield the relative path of main_tex from temp_dir and temp_dir itself
             yield main_tex, temp_dir
+            handed_over = True
 
         finally:
-            # Clean up temporary directory
-            if cleanup:
+            # Clean up temporary directory. After a failure nobody owns it
+            if cleanup or not handed_over:
                 shutil.rmtree(temp_dir)
 
     @classmethod
-- 
2.43.0


From 6328c1b6c0c0a1c5c18216e0a668424c7c978448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:56 +0000
Subject: [PATCH 07/20] fix: cleaning up a result is harmless when its folder
 is already gone

---
 latex2json/tex_reader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/latex2json/tex_reader.py b/latex2json/tex_reader.py
index e9e7c7d..aa66cb7 100644
--- a/latex2json/tex_reader.py
+++ b/latex2json/tex_reader.py
@@ -28,7 +28,12 @@ class ProcessingResult:
     def cleanup(self):
         """Clean up temporary resources."""
         if self.temp_dir:
-            shutil.rmtree(self.temp_dir)
+            try:
+                shutil.rmtree(self.temp_dir)
+            except FileNotFoundError:
+                # already removed, e.g. on leaving the extraction context
+                if os.path.exists(self.temp_dir):
+                    raise
             self.temp_dir = None
 
 
-- 
2.43.0


From 25565dd89c75811c49ca901c326330a58f4a7916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:15 +0000
Subject: [PATCH 08/20] fix: choose the main file and the fallback bibliography
 independently of the listing order

---
 latex2json/parser/bib/bib_parser.py | 4 +++-
 latex2json/tex_file_extractor.py    | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index e8c7323..dfb60d7 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -106,7 +106,9 @@ class BibParser:
                 bib_content = self._open_file(main_bbl)
             else:
                 # Look for any .bbl file
-                bbl_files = [f for f in os.listdir(directory) if f.endswith(".bbl")]
+                bbl_files = sorted(
+                    f for f in os.listdir(directory) if f.endswith(".bbl")
+                )
                 if bbl_files:
                     first_bbl = os.path.join(directory, bbl_files[0])
                     self.logger.info(f"Bib fallback -> Found {bbl_files[0]}")
diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index 9513654..a56a6bd 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -48,8 +48,10 @@ class TexFileExtractor:
         Raises:
             FileNotFoundError: If no main TeX file is found
         """
-        for root, _, files in os.walk(folder_path):
-            for file in files:
+        for root, dirs, files in os.walk(folder_path):
+            # do not depend on the order in which the file system lists entries
+            dirs.sort()
+            for file in sorted(files):
                 if file.endswith(".tex"):
                     full_path = os.path.join(root, file)
                     try:
-- 
2.43.0


From 5dcbc10fd0c99783e26418c056a8ff6aa6e44f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 09/20] fix: decode bibliography files like the other project
 files, not with the locale's encoding

---
 latex2json/parser/bib/bib_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index dfb60d7..0fbab49 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -3,6 +3,7 @@ import logging
 import os
 from typing import List
 
+from latex2json.utils.encoding import read_file
 from latex2json.parser.bib.bibtex_parser import (
     BibTexEntry,
     BibTexParser,
@@ -67,8 +68,7 @@ class BibParser:
         #     self.logger.warning(f"BibParser: Already parsed {file_path}")
         #     return None
         # self._parsed_files.add(file_path)
-        with open(file_path, "r") as f:
-            return f.read()
+        return read_file(file_path)
 
     def parse_file(self, file_path: str) -> List[BibTexEntry]:
         """Parse a bibliography file and return list of entries.
-- 
2.43.0


From 6670bc69284073e7cf2449112e8b83f739fe804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:47 +0000
Subject: [PATCH 10/20] fix: publish the unicode conversion tables only when
 they are complete

---
 latex2json/latex_maps/latex_unicode_converter.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/latex2json/latex_maps/latex_unicode_converter.py b/latex2json/latex_maps/latex_unicode_converter.py
index 045dc3b..ac8f48b 100644
--- a/latex2json/latex_maps/latex_unicode_converter.py
+++ b/latex2json/latex_maps/latex_unicode_converter.py
@@ -13,9 +13,13 @@ class LatexUnicodeConverter:
 
     @classmethod
     def _ensure_initialized(cls):
-        if cls._latex2str is None:
-            cls._latex2str = cls._init_latex2unicode()
-            cls._patterns = cls._create_categorized_regex_patterns()
+        if cls._patterns is None:
+            # Publish the tables only once they are complete: another thread must
+            # not see, nor an interrupt leave behind, a half initialized class
+            latex2str = cls._init_latex2unicode()
+            patterns = cls._create_categorized_regex_patterns(latex2str)
+            cls._latex2str = latex2str
+            cls._patterns = patterns
 
     @classmethod
     def _init_latex2unicode(cls):
@@ -25,7 +29,7 @@ class LatexUnicodeConverter:
         return _latex2str
 
     @classmethod
-    def _create_categorized_regex_patterns(cls):
+    def _create_categorized_regex_patterns(cls, latex2str: Dict[str, str]):
         patterns = {
             "unicode": [UNICODE_PATTERN],  # add unicode at top to check it first
             "ensuremath": [],
@@ -36,7 +40,7 @@ class LatexUnicodeConverter:
         }
 
         # Categorize each command
-        for cmd in cls._latex2str.keys():
+        for cmd in latex2str.keys():
             if not cmd.startswith("\\") and not cmd.startswith("{"):
                 continue
 
-- 
2.43.0


From 22b37c372b8db5dcba2405c963514b0393a19d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 11/20] fix: serialise results without changing the
 process-wide warning filters

---
 latex2json/tex_reader.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/latex2json/tex_reader.py b/latex2json/tex_reader.py
index aa66cb7..166f7ca 100644
--- a/latex2json/tex_reader.py
+++ b/latex2json/tex_reader.py
@@ -2,7 +2,6 @@ import logging
 import os
 import json
 from typing import Dict, List, TypeVar, Callable, Any, Tuple, Optional
-import warnings
 from dataclasses import dataclass
 from pathlib import Path
 import shutil
@@ -149,11 +148,11 @@ class TexReader:
         """
 
         def _convert() -> str:
-            with warnings.catch_warnings():
-                warnings.filterwarnings("ignore", module="pydantic")
-                json_output = [
-                    t.model_dump(mode="json", exclude_none=True) for t in result.tokens
-                ]
+            # do not touch the warning filters, they belong to the whole process
+            json_output = [
+                t.model_dump(mode="json", exclude_none=True, warnings=False)
+                for t in result.tokens
+            ]
             data = {
                 "tokens": json_output,
                 "color_map": result.color_map,
-- 
2.43.0


From d8759383cb6372f4ef01af5039c572d91e9866ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:54 +0000
Subject: [PATCH 12/20] fix: never create links or special files when unpacking
 a tar archive

---
 latex2json/tex_file_extractor.py | 36 +++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index a56a6bd..09bfe7f 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -67,6 +67,29 @@ class TexFileExtractor:
             "No main TeX file found (no documentclass or begin{document} found)"
         )
 
+    @staticmethod
+    def _copy_link_target(tar, member, temp_dir):
+        """Unpack a link as a copy of the file it names within the archive.
+
+        A link itself is never created: it could lead outside of the folder, and
+        take later members and readers there.
+        """
+        try:
+            source = tar.extractfile(member)
+        except (KeyError, RecursionError):
+            source = None
+        if source is None:
+            logger.warning(
+                "Skipping link in tar.gz without a file in it: %s -> %s",
+                member.name,
+                member.linkname,
+            )
+            return
+        path = os.path.join(temp_dir, member.name)
+        os.makedirs(os.path.dirname(path), exist_ok=True)
+        with source, open(path, "wb") as target:
+            shutil.copyfileobj(source, target)
+
     @staticmethod
     @contextmanager
     def process_compressed_file(compressed_path, cleanup: bool = True):
@@ -149,7 +172,18 @@ class TexFileExtractor:
                         # Extract only safe members (use filter='data' in Python 3.12+ for better security)
                         # For broader compatibility, we extract member by member after checks
                         for member in safe_members:
-                            tar.extract(member, temp_dir)
+                            if member.isdir() or member.isreg():
+                                # The folder must stay accessible, to be read and removed
+                                member.mode |= 0o700 if member.isdir() else 0o600
+                                tar.extract(member, temp_dir)
+                            elif member.issym() or member.islnk():
+                                TexFileExtractor._copy_link_target(
+                                    tar, member, temp_dir
+                                )
+                            else:
+                                logger.warning(
+                                    "Skipping special file in tar.gz: %s", member.name
+                                )
 
                     main_tex, main_folder_abs = TexFileExtractor.find_main_tex_file(
                         temp_dir
-- 
2.43.0


From 03c1d710b8a70b1b7926c282769c3d1cf0595ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:53 +0000
Subject: [PATCH 13/20] fix: do not refuse archive members for two dots within
 a file name

---
 latex2json/tex_file_extractor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index 09bfe7f..0252b93 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -120,7 +120,7 @@ class TexFileExtractor:
                         # Prevent path traversal and absolute paths
                         if (
                             os.path.isabs(member)
-                            or ".." in member
+                            or ".." in member.replace("\\", "/").split("/")
                             or not os.path.abspath(member_path).startswith(
                                 os.path.abspath(temp_dir)
                             )
@@ -158,7 +158,7 @@ class TexFileExtractor:
                             # Prevent path traversal and absolute paths
                             if (
                                 os.path.isabs(member.name)
-                                or ".." in member.name
+                                or ".." in member.name.replace("\\", "/").split("/")
                                 or not os.path.abspath(member_path).startswith(
                                     os.path.abspath(temp_dir)
                                 )
-- 
2.43.0


From a2d1594453e84b64b675fff0243a79cfe6b48360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 14/20] fix: refuse circular inclusions instead of parsing them
 without end

---
 latex2json/parser/tex_parser.py | 30 +++++++++++++++++++++++++++---
 latex2json/utils/tex_utils.py   | 25 +++++++++++++++++++++----
 2 files changed, 48 insertions(+), 7 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 873da9d..4046db8 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -5,6 +5,7 @@ import sys, os, traceback
 import logging
 
 from latex2json.parser.bib.bib_parser import BibTexEntry, BibParser
+from latex2json.utils.encoding import read_file
 from latex2json.utils.logger import setup_logger
 
 sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
@@ -30,7 +31,7 @@ from latex2json.parser.handlers.environment import BaseEnvironmentHandler
 from latex2json.parser.handlers.command_manager import CommandManager
 from latex2json.utils.tex_utils import (
     extract_nested_content,
-    read_tex_file_content,
+    find_tex_file,
     strip_latex_comments,
 )
 from latex2json.parser.tex_preprocessor import LatexPreprocessor
@@ -55,6 +56,9 @@ class LatexParser:
             None  # Current environment token (used for associating nested labels)
         )
         self.current_file_dir = None
+        # files being parsed (outermost first), to refuse circular inclusions
+        self._file_stack = []
+        self._in_bib_file = False
         self.current_str = ""
 
         # color definitions via \definecolor
@@ -122,6 +126,8 @@ class LatexParser:
         self.colors = {}
         self.current_str = ""
         self.current_file_dir = None
+        self._file_stack = []
+        self._in_bib_file = False
         self.current_env = None
 
         self.command_manager.clear()
@@ -324,6 +330,7 @@ class LatexParser:
             )
 
             try:
+                self._in_bib_file = True
                 entries = self.bib_parser.parse_file(full_path)
                 all_tokens.extend(
                     [self._convert_bibentry_tokens(entry) for entry in entries]
@@ -332,6 +339,8 @@ class LatexParser:
                 self.logger.warning(
                     f"Failed to parse bibliography file: {full_path}, error: {str(e)}"
                 )
+            finally:
+                self._in_bib_file = False
 
         # check and remove duplicate cite_keys
         cite_keys = set()
@@ -361,6 +370,11 @@ class LatexParser:
                         self._convert_bibentry_tokens(entry) for entry in entries
                     ]
             elif token["type"] == "bibliography_file":
+                if self._in_bib_file:
+                    self.logger.warning(
+                        f"Ignoring \\bibliography within a bibliography: {token['content']}"
+                    )
+                    return
                 if token["content"]:
                     token = self._parse_bib_file(token["content"])
             elif token["type"] == "input_file":
@@ -672,7 +686,13 @@ class LatexParser:
                 self.current_file_dir = os.path.dirname(file_abspath)
 
             try:
-                content = read_tex_file_content(file_path, extension=extension)
+                tex_file = os.path.realpath(find_tex_file(file_path, extension))
+                if tex_file in self._file_stack:
+                    self.logger.warning(f"Ignoring circular inclusion of {file_path}")
+                    return []
+                if self._file_stack and not os.path.isfile(tex_file):
+                    raise FileNotFoundError(f"Not a regular file: '{file_path}'")
+                content = read_file(tex_file)
             except FileNotFoundError:
                 self.logger.error(f"File not found: {file_path}", exc_info=True)
                 if strict:
@@ -680,7 +700,11 @@ class LatexParser:
                 return []
 
             preprocess = should_preprocess_file(file_path)
-            out = self.parse(content, preprocess=preprocess)
+            self._file_stack.append(tex_file)
+            try:
+                out = self.parse(content, preprocess=preprocess)
+            finally:
+                self._file_stack.pop()
             self.logger.info(f"Finished parsing file: {file_path}")
             return out
         except Exception as e:
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 5a57707..5fd3a6b 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -254,16 +254,16 @@ def substitute_patterns(
     return text
 
 
-def read_tex_file_content(file_path: str, extension: str = ".tex") -> str:
+def find_tex_file(file_path: str, extension: str = ".tex") -> str:
     """
-    Attempts to read content from an input file.
+    Find the file that a (possibly extensionless) file name stands for.
 
     Args:
         file_path: Path to the input file
         extension: Default file extension to try (e.g., ".tex")
 
     Returns:
-        str: Content of the file
+        str: Path of the existing file
 
     Raises:
         FileNotFoundError: If file doesn't exist or is a directory
@@ -280,11 +280,28 @@ def read_tex_file_content(file_path: str, extension: str = ".tex") -> str:
         if os.path.exists(path):
             if os.path.isdir(path):
                 continue
-            return read_file(path)
+            return path
 
     raise FileNotFoundError(f"Failed to read input file '{file_path}'")
 
 
+def read_tex_file_content(file_path: str, extension: str = ".tex") -> str:
+    """
+    Attempts to read content from an input file.
+
+    Args:
+        file_path: Path to the input file
+        extension: Default file extension to try (e.g., ".tex")
+
+    Returns:
+        str: Content of the file
+
+    Raises:
+        FileNotFoundError: If file doesn't exist or is a directory
+    """
+    return read_file(find_tex_file(file_path, extension))
+
+
 def has_comment_on_sameline(content: str, pos: int) -> bool:
     """Check if there's an uncommented % before pos on the current line"""
     # Find start of current line
-- 
2.43.0


From 18c4852397c87887ce45e862cb59161d74d62570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 15/20] fix: never open pipes, sockets or devices in place of a
 project file

---
 latex2json/parser/bib/bib_parser.py   | 11 +++++++----
 latex2json/parser/sty_parser.py       |  2 +-
 latex2json/parser/tex_preprocessor.py |  2 +-
 latex2json/tex_file_extractor.py      |  2 ++
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index 0fbab49..0ea342b 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -85,14 +85,14 @@ class BibParser:
         bib_content = None
 
         # Case 1: File already has correct extension
-        if file_path.endswith(tuple(exts)) and os.path.exists(file_path):
+        if file_path.endswith(tuple(exts)) and os.path.isfile(file_path):
             bib_content = self._open_file(file_path)
 
         # Case 2: Need to try adding extensions
         else:
             for ext in exts:
                 full_path = file_path + ext
-                if os.path.exists(full_path):
+                if os.path.isfile(full_path):
                     bib_content = self._open_file(full_path)
                     break
 
@@ -101,13 +101,16 @@ class BibParser:
             directory = os.path.dirname(file_path)
             main_bbl = os.path.join(directory, "main.bbl")
 
-            if os.path.exists(main_bbl):
+            if os.path.isfile(main_bbl):
                 self.logger.info("Bib fallback -> Found main.bbl")
                 bib_content = self._open_file(main_bbl)
             else:
                 # Look for any .bbl file
                 bbl_files = sorted(
-                    f for f in os.listdir(directory) if f.endswith(".bbl")
+                    f
+                    for f in os.listdir(directory)
+                    if f.endswith(".bbl")
+                    and os.path.isfile(os.path.join(directory, f))
                 )
                 if bbl_files:
                     first_bbl = os.path.join(directory, bbl_files[0])
diff --git a/latex2json/parser/sty_parser.py b/latex2json/parser/sty_parser.py
index f9672e1..c66b604 100644
--- a/latex2json/parser/sty_parser.py
+++ b/latex2json/parser/sty_parser.py
@@ -81,7 +81,7 @@ class LatexStyParser:
                 package_path = os.path.join(self.current_file_dir, package_path)
             if not package_path.endswith(extension):
                 package_path += extension
-            if os.path.exists(package_path):
+            if os.path.isfile(package_path):
                 tokens.extend(self.parse_file(package_path))
         return tokens
 
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 5fbc3f3..3286802 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -172,7 +172,7 @@ class LatexPreprocessor:
                 package_path = os.path.join(file_dir, package_path)
             if not package_path.endswith(extension):
                 package_path += extension
-            if os.path.exists(package_path):
+            if os.path.isfile(package_path):
                 _tokens = self.sty_parser.parse_file(package_path)
                 tokens.extend(_tokens)
                 for token in _tokens:
diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index 0252b93..f301bb3 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -54,6 +54,8 @@ class TexFileExtractor:
             for file in sorted(files):
                 if file.endswith(".tex"):
                     full_path = os.path.join(root, file)
+                    if not os.path.isfile(full_path):
+                        continue
                     try:
                         content = read_file(full_path)
                         if TexFileExtractor.is_main_tex_file(content):
-- 
2.43.0


From c83ced2baeb014500bc456950a802f677c438604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:09 +0000
Subject: [PATCH 16/20] fix: parse a package once, whatever the name it is
 reached by

---
 latex2json/parser/sty_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/sty_parser.py b/latex2json/parser/sty_parser.py
index c66b604..5a70016 100644
--- a/latex2json/parser/sty_parser.py
+++ b/latex2json/parser/sty_parser.py
@@ -259,7 +259,9 @@ class LatexStyParser:
     ) -> List[Dict[str, str]]:
         try:
             file_path = os.path.abspath(file_path)
-            if file_path in self.parsed_files:
+            # one file can have many names (symbolic links)
+            real_path = os.path.realpath(file_path)
+            if real_path in self.parsed_files:
                 self.logger.info(f"File already parsed, skipping: {file_path}")
                 return []
 
@@ -267,7 +269,7 @@ class LatexStyParser:
             current_file_dir = self.current_file_dir
 
             content = read_tex_file_content(file_path, extension=extension)
-            self.parsed_files.add(file_path)
+            self.parsed_files.add(real_path)
 
             tokens = self.parse(content, file_path=file_path)
 
-- 
2.43.0


From 9d8cdaec7acda6df0b6a284f25e5f2900ef6fa29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:51 +0000
Subject: [PATCH 17/20] fix: a drawing or group that is never closed must not
 stall the parser

The handlers of tikzpicture/picture/overpic and of \bgroup/\begingroup
returned an end position of -1 or 0 when the end was missing, so that the
parser never advanced.  Skip the opening command, as is done for other
unterminated environments.
---
 latex2json/parser/handlers/environment.py | 3 ++-
 latex2json/parser/packages/overpic.py     | 3 +++
 latex2json/parser/packages/tikz_pgf.py    | 3 +++
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index fcd0320..00d43a5 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -325,7 +325,8 @@ class BaseEnvironmentHandler(TokenHandler):
                 )
 
             if end_pos == -1:
-                return None, 0
+                # could not find the end of the group. default to end of match
+                return None, match.end()
 
             token = {
                 "type": ENV_TYPES.get("group", "environment"),
diff --git a/latex2json/parser/packages/overpic.py b/latex2json/parser/packages/overpic.py
index 0622b97..4fd6a80 100644
--- a/latex2json/parser/packages/overpic.py
+++ b/latex2json/parser/packages/overpic.py
@@ -27,6 +27,9 @@ class OverpicHandler(TokenHandler):
             return None, 0
 
         start_pos, end_pos, env_content = find_matching_env_block(content, "overpic")
+        if end_pos <= 0:
+            # could not find matching env block. default to end of match
+            return None, match.end()
 
         args, _ = extract_args(env_content, 1, 1)
         if args["req"]:
diff --git a/latex2json/parser/packages/tikz_pgf.py b/latex2json/parser/packages/tikz_pgf.py
index bda51f7..2f47d46 100644
--- a/latex2json/parser/packages/tikz_pgf.py
+++ b/latex2json/parser/packages/tikz_pgf.py
@@ -49,6 +49,9 @@ class TikzPGFHandler(TokenHandler):
                     start_pos, end_pos, inner_content = find_matching_env_block(
                         content, env_name
                     )
+                    if end_pos <= 0:
+                        # could not find matching env block. default to end of match
+                        return None, match.end()
                     return {
                         "type": "diagram",
                         "name": env_name,
-- 
2.43.0


From 63a6a6dd951b3c01df4ce9242bd6594fafc05d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 18/20] fix: report malformed compiled bibliography entries
 through logging, not standard error

---
 latex2json/parser/bib/compiled_bibtex.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/bib/compiled_bibtex.py b/latex2json/parser/bib/compiled_bibtex.py
index 68ecbdd..854534d 100644
--- a/latex2json/parser/bib/compiled_bibtex.py
+++ b/latex2json/parser/bib/compiled_bibtex.py
@@ -1,6 +1,6 @@
 import re
 import argparse
-import sys
+import logging
 
 from latex2json.utils.tex_utils import (
     find_matching_env_block,
@@ -8,6 +8,8 @@ from latex2json.utils.tex_utils import (
     extract_nested_content,
 )
 
+logger = logging.getLogger(__name__)
+
 PATTERNS_TO_REPLACE = {
     r"\\bibinitperiod\b": ".",
     r"\\bibrangedash\s*\b": "--",
@@ -148,7 +150,7 @@ def process_compiled_bibtex_to_bibtex(input_text):
             bibtex_entry = convert_to_regular_bibtex(entry)
             output_entries.append(bibtex_entry)
         except Exception as e:
-            sys.stderr.write(f"Error parsing an entry: {e}\n")
+            logger.warning("Error parsing an entry: %s", e)
     return output_entries
 
 
-- 
2.43.0


From cc68fd90c2939cc35314f9c534293eb7d51f5266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:13 +0000
Subject: [PATCH 19/20] fix: an unbalanced \name ... \endname pair inside an
 equation must not grow it without end

---
 latex2json/parser/handlers/environment.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 00d43a5..ce32125 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -120,16 +120,22 @@ def convert_any_env_pairs_to_begin_end(content: str) -> str:
     r"""Convert any \aa \endaa pairs to \begin{aa} \end{aa}"""
     pattern = re.compile(ENV_PAIR_PATTERN, re.DOTALL)
 
+    search_pos = 0
     match = pattern.search(content)
     while match:
         env_name = match.group(1)
         start_pos, end_pos, inner_content = extract_nested_content_pattern(
             content, r"\\" + env_name, r"\\end" + env_name
         )
+        if start_pos < 0:
+            # not a balanced pair: leave it as it is and look further on
+            search_pos = match.end(1)
+            match = pattern.search(content, search_pos)
+            continue
         inner_content = convert_any_env_pairs_to_begin_end(inner_content)
         inner_content = r"\begin{%s}%s\end{%s}" % (env_name, inner_content, env_name)
         content = content[:start_pos] + inner_content + content[end_pos:]
-        match = pattern.search(content)
+        match = pattern.search(content, search_pos)
     return content
 
 
-- 
2.43.0


From 3e2e5a613b15ab431a9e9ee7fcc5e72e8edb4e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:37 +0000
Subject: [PATCH 20/20] fix: take macro names literally when building patterns
 for their uses

---
 latex2json/parser/handlers/command_processor.py  | 10 +++++-----
 latex2json/parser/handlers/if_else_statements.py |  2 +-
 latex2json/parser/handlers/new_definition.py     |  9 ++++++---
 3 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 66482ff..95561f0 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -256,7 +256,7 @@ class CommandProcessor:
         self, command_name: str, left_delim: str, right_delim: str
     ):
         r"""Process a paired delimiter command like \br{content}"""
-        usage_pattern = r"\\" + command_name + r"\*?\s*{"
+        usage_pattern = r"\\" + re.escape(command_name) + r"\*?\s*{"
 
         def handler(
             match: re.Match[str], text: str, math_mode: bool = False
@@ -330,7 +330,7 @@ class CommandProcessor:
 
     def process_newif(self, var_name: str):
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"(?:true|false)"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"(?:true|false)"),
             "handler": default_ignore_handler,
         }
         self.commands["newif:" + var_name] = command
@@ -351,14 +351,14 @@ class CommandProcessor:
             return "", start_pos + end_pos
 
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"\b"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"\b"),
             "handler": handler,
         }
         self.commands["newtoks:" + var_name] = command
 
     def process_newX(self, var_name: str, type: str = "newX"):
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"\b"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"\b"),
             "handler": default_ignore_handler,
         }
         self.commands[type + ":" + var_name] = command
@@ -366,7 +366,7 @@ class CommandProcessor:
     def process_newcounter(self, var_name: str):
 
         command: CommandEntry = {
-            "pattern": re.compile(r"\\the" + var_name + r"\b"),
+            "pattern": re.compile(r"\\the" + re.escape(var_name) + r"\b"),
             "handler": default_ignore_handler,
         }
         self.commands["newcounter:" + var_name] = command
diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 3d8aa73..93ace23 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -200,7 +200,7 @@ class IfElseBlockHandler(TokenHandler):
         self._recompile_all_ifs()
 
     def process_newif(self, var_name: str):
-        pattern = re.compile(r"\\if" + var_name + r"(?:true|false)?")
+        pattern = re.compile(r"\\if" + re.escape(var_name) + r"(?:true|false)?")
         # push to top of stack i.e. priority
         self.all_ifs.insert(0, (var_name, pattern))
         self._recompile_all_ifs()
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 7166b80..3971633 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -341,14 +341,14 @@ class NewDefinitionHandler(TokenHandler):
                 "content": content,
                 "num_args": 0,
                 "defaults": [],
-                "usage_pattern": r"\\" + name + USAGE_SUFFIX,
+                "usage_pattern": r"\\" + re.escape(name) + USAGE_SUFFIX,
             }
         else:
             token = {
                 "type": "let",
                 "name": name,
                 "content": content,
-                "usage_pattern": r"\\" + name + USAGE_SUFFIX,
+                "usage_pattern": r"\\" + re.escape(name) + USAGE_SUFFIX,
             }
         return token, match.end()
 
@@ -496,7 +496,10 @@ class NewDefinitionHandler(TokenHandler):
                                 "\\" + first_inner.replace(" ", "")
                             )
                         inner_csname_regex = (
-                            r"\\csname" + first_inner + r"\\endcsname" + usage_suffix
+                            r"\\csname"
+                            + re.escape(first_inner)
+                            + r"\\endcsname"
+                            + usage_suffix
                         )
                         token["usage_pattern"] = (
                             token["usage_pattern"] + "|" + inner_csname_regex
-- 
2.43.0

