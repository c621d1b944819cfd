From 8576361ebc5216fc98069aefeaf49a584652ba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:19 +0000
Subject: [PATCH 01/39] fix: MicroDVD frame numbers convert to exact
 microseconds

---
 pycaption/microdvd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycaption/microdvd.py b/pycaption/microdvd.py
index 6c31ca1..7668558 100644
--- a/pycaption/microdvd.py
+++ b/pycaption/microdvd.py
@@ -1,5 +1,6 @@
 import re
 from copy import deepcopy
+from fractions import Fraction
 
 from .base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
@@ -67,7 +68,9 @@ class MicroDVDReader(BaseReader):
         return caption_set
 
     def _framestomicro(self, framenum, fps=25.0):
-        return int(framenum / fps * (10 ** 6))
+        # Exact arithmetic: a float quotient can be off by one microsecond
+        rate = Fraction(str(fps))
+        return framenum * 10 ** 6 * rate.denominator // rate.numerator
 
 
 class MicroDVDWriter(BaseWriter):
-- 
2.43.0


From dc3779eb916441dee638ee2b702e838850b187f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:22 +0000
Subject: [PATCH 02/39] fix: DFXP time expressions convert to exact
 microseconds

---
 pycaption/dfxp/base.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index bef0586..993c77b 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -189,16 +189,20 @@ class DFXPReader(BaseReader):
         microseconds += int(clock_time_match.group('seconds')) * \
                         MICROSECONDS_PER_UNIT["seconds"]
         if clock_time_match.group('sub_frames'):
+            # A decimal fraction of a second, of any length
             microseconds += int(clock_time_match.group('sub_frames').ljust(
-                3, '0')) * MICROSECONDS_PER_UNIT["milliseconds"]
+                6, '0')[:6])
         elif clock_time_match.group('frames'):
-            microseconds += int(clock_time_match.group('frames')) / 30 * \
-                            MICROSECONDS_PER_UNIT["seconds"]
-        return int(microseconds)
+            microseconds += int(clock_time_match.group('frames')) * \
+                            MICROSECONDS_PER_UNIT["seconds"] // 30
+        return microseconds
 
     @staticmethod
     def _convert_time_count_to_microseconds(time_count_match):
-        value = float(time_count_match.group('time_count'))
+        # Integer arithmetic: floats can be off by one microsecond
+        whole, _, decimals = (
+            time_count_match.group('time_count').partition('.'))
+        value = int(whole + decimals)
         metric = time_count_match.group("metric")
         if metric == "h":
             microseconds = value * MICROSECONDS_PER_UNIT["hours"]
@@ -209,11 +213,12 @@ class DFXPReader(BaseReader):
         elif metric == "ms":
             microseconds = value * MICROSECONDS_PER_UNIT["milliseconds"]
         elif metric == "f":
-            microseconds = value / 30 * MICROSECONDS_PER_UNIT["seconds"]
+            microseconds = value * MICROSECONDS_PER_UNIT["seconds"]
+            return microseconds // (30 * 10 ** len(decimals))
         elif metric == "t":
             raise NotImplementedError("The tick metric for time count is "
                                       "not currently implemented.")
-        return int(microseconds)
+        return microseconds // 10 ** len(decimals)
 
     def _convert_tag_to_node(self, tag):
         # convert text
-- 
2.43.0


From 53b7cb852fa3746efe1d7c9c698897f7889f022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:25 +0000
Subject: [PATCH 03/39] fix: keep the cues of every DFXP div of a language

---
 pycaption/dfxp/base.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 993c77b..7585950 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -106,7 +106,12 @@ class DFXPReader(BaseReader):
         for div in dfxp_document.find_all('div'):
             lang = div.attrs.get('xml:lang', default_language)
 
-            caption_dict[lang] = self._convert_div_to_caption_list(div)
+            captions = self._convert_div_to_caption_list(div)
+            if lang in caption_dict:
+                # A language may be spread over several divs
+                caption_dict[lang].extend(captions)
+            else:
+                caption_dict[lang] = captions
 
         for style in dfxp_document.find_all('style'):
             id_ = style.attrs.get('xml:id') or style.attrs.get('id')
-- 
2.43.0


From 5531638a4efb3ef4a68beaed69efe4cc5b75afe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:25 +0000
Subject: [PATCH 04/39] fix: give every SAMI cue of the last sync an end time

---
 pycaption/sami.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index b310bbc..e272e0f 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -230,9 +230,11 @@ class SAMIReader(BaseReader):
                 caption = Caption(start, end, self.line, styles, caption_layout)
                 captions.append(caption)
 
-        if captions and captions[-1].end == 0:
+        for caption in reversed(captions):
+            if caption.end != 0:
+                break
             # Arbitrarily make this last 4 seconds. Not ideal...
-            captions[-1].end = (milliseconds + 4000) * 1000
+            caption.end = (milliseconds + 4000) * 1000
 
         return captions
 
-- 
2.43.0


From 1cfa16c5181bf256b9cc179b60596b2d17278346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:25 +0000
Subject: [PATCH 05/39] fix: a blank line ends a WebVTT cue that has no text

---
 pycaption/webvtt.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index c3573b2..21ec6a5 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -93,10 +93,11 @@ class WebVTTReader(BaseReader):
 
             elif "" == line:
                 if found_timing and nodes:
-                    found_timing = False
                     caption = Caption(start, end, nodes, layout_info=layout_info)
                     captions.append(caption)
                     nodes = []
+                # A blank line ends the cue, even one without any text
+                found_timing = False
             else:
                 if found_timing:
                     if nodes:
-- 
2.43.0


From cc846e1164c0053a303f5fe56d8fabdf3affc393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:53 +0000
Subject: [PATCH 06/39] fix: SAMI writer ends a cue that ends in the first
 millisecond

---
 pycaption/sami.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index e272e0f..da29cc1 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -441,7 +441,7 @@ class SAMIWriter(BaseWriter):
         """
         time = caption.start // 1000
 
-        if self.last_time and time != self.last_time:
+        if self.last_time is not None and time != self.last_time:
             sami = self._recreate_blank_tag(
                 sami, caption, lang, primary, captions)
 
-- 
2.43.0


From 66e842b8e0fe3724471a83be771c83aadcbffbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:55 +0000
Subject: [PATCH 07/39] fix: SAMI sync times are integer milliseconds

---
 pycaption/sami.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index da29cc1..00f3d75 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -439,13 +439,13 @@ class SAMIWriter(BaseWriter):
 
         :rtype: BeautifulSoup
         """
-        time = caption.start // 1000
+        time = int(caption.start // 1000)
 
         if self.last_time is not None and time != self.last_time:
             sami = self._recreate_blank_tag(
                 sami, caption, lang, primary, captions)
 
-        self.last_time = caption.end // 1000
+        self.last_time = int(caption.end // 1000)
 
         sami, sync = self._recreate_sync(sami, lang, primary, time)
 
-- 
2.43.0


From 3b35aad7cb9235f1eb90f6b127df3151a8d9ba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:31 +0000
Subject: [PATCH 08/39] fix: drop empty lines inside an SRT cue, a blank line
 would end it

---
 pycaption/srt.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index 3351bad..9f8e3ed 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -133,8 +133,11 @@ class SRTWriter(BaseWriter):
             for node in caption.nodes:
                 new_content = self._recreate_line(new_content, node)
 
-            # Eliminate excessive line breaks
-            new_content = new_content.strip()
+            # A blank line would end the cue, so empty lines are dropped
+            new_content = '\n'.join(
+                line for line in new_content.strip().split('\n')
+                if line.strip()
+            )
 
             srt += f"{new_content}\n\n"
             count += 1
-- 
2.43.0


From f0c810f0c0dc3a7257cc70093b00cd3759582260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:33 +0000
Subject: [PATCH 09/39] fix: escape a WebVTT arrow that is split between two
 text nodes

---
 pycaption/webvtt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 21ec6a5..6e9993b 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -413,6 +413,8 @@ class WebVTTWriter(BaseWriter):
                 # ATTENTION: This is where the plain unicode node content is
                 # finally encoded as WebVTT.
                 s += self._encode_illegal_characters(node.content) or "&nbsp;"
+                # An arrow may also be split between adjacent text nodes.
+                s = s.replace("-->", "--&gt;")
                 current_layout = node.layout_info
             elif node.type_ == CaptionNode.STYLE:
                 resulting_style = self._calculate_resulting_style(
-- 
2.43.0


From 877aeb4551d9b85dfd9cd0b475878254d0cd566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:23 +0000
Subject: [PATCH 10/39] fix: keep the words of DFXP and SAMI text that is
 wrapped over several source lines

---
 pycaption/base.py      | 53 ++++++++++++++++++++++++++++++++++++++++++
 pycaption/dfxp/base.py | 29 +++++++++++++----------
 pycaption/sami.py      | 10 ++++----
 3 files changed, 74 insertions(+), 18 deletions(-)

diff --git a/pycaption/base.py b/pycaption/base.py
index 1fa7789..e2a9247 100644
--- a/pycaption/base.py
+++ b/pycaption/base.py
@@ -1,4 +1,5 @@
 import os
+import re
 from collections import defaultdict
 from datetime import timedelta
 from numbers import Number
@@ -9,6 +10,58 @@ from .exceptions import CaptionReadError, CaptionReadTimingError
 DEFAULT_LANGUAGE_CODE = os.getenv("PYCAPTION_DEFAULT_LANG", "und")
 
 
+# A line break in the source of a markup document, with the indentation around
+_SOURCE_LINE_BREAK = re.compile(r"[ \t\r\n]*[\r\n][ \t\r\n]*")
+
+
+def fold_source_line_breaks(text):
+    """Replace every source line break (and the white space around) by '\\n'"""
+    return _SOURCE_LINE_BREAK.sub("\n", text)
+
+
+def resolve_source_line_breaks(nodes):
+    """
+    A source line break separates words, like a space does, except at the start
+    and at the end of a displayed line, where it is mere indentation.
+
+    :param nodes: CaptionNodes with texts from fold_source_line_breaks
+    :return: the list of the nodes, less the text nodes that became empty
+    """
+    lines = [[]]
+    for node in nodes:
+        if node.type_ == CaptionNode.BREAK:
+            lines.append([])
+        elif node.type_ == CaptionNode.TEXT:
+            lines[-1].append(node)
+
+    for line in lines:
+        # Any white space before makes a line break at the start redundant
+        after_space = True
+        last_node = None
+        for node in line:
+            if after_space:
+                node.content = node.content.lstrip("\n")
+            elif node.content == "\n":
+                # Not worth a node (and maybe a layout) of its own
+                last_node.content += node.content
+                node.content = ""
+                after_space = True
+            if node.content:
+                after_space = node.content[-1].isspace()
+                last_node = node
+        for node in reversed(line):
+            node.content = node.content.rstrip("\n")
+            if node.content:
+                break
+        for node in line:
+            node.content = node.content.replace("\n", " ")
+
+    return [
+        node for node in nodes
+        if node.type_ != CaptionNode.TEXT or node.content
+    ]
+
+
 def force_byte_string(content):
     try:
         return content.encode("UTF-8")
diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 7585950..211e986 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -2,11 +2,12 @@ import re
 from copy import deepcopy
 from xml.sax.saxutils import escape
 
-from bs4 import BeautifulSoup, NavigableString
+from bs4 import BeautifulSoup, CData, NavigableString
+from bs4.element import PreformattedString
 
 from ..base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
-    DEFAULT_LANGUAGE_CODE,
+    DEFAULT_LANGUAGE_CODE, fold_source_line_breaks, resolve_source_line_breaks,
 )
 from ..exceptions import (
     CaptionReadNoCaptions, CaptionReadSyntaxError, InvalidInputError,
@@ -145,6 +146,7 @@ class DFXPReader(BaseReader):
         start, end = self._find_and_convert_times(p_tag)
         self.nodes = []
         self._convert_tag_to_node(p_tag)
+        self.nodes = resolve_source_line_breaks(self.nodes)
         styles = self._convert_style(p_tag)
 
         if len(self.nodes) > 0:
@@ -228,16 +230,19 @@ class DFXPReader(BaseReader):
     def _convert_tag_to_node(self, tag):
         # convert text
         if isinstance(tag, NavigableString):
-            # strips indentation whitespace only
-            pattern = re.compile("^(?:[\n\r]+\\s*)?(.+)")
-            result = pattern.search(tag)
-            if result:
-                # Escaping/unescaping xml entities is the responsibility of the
-                # xml parser used by BeautifulSoup in its initialization. The
-                # content of the tag variable at this point should be a plain
-                # unicode string with xml entities already converted to unicode
-                # characters.
-                tag_text = result.groups()[0]
+            # comments and processing instructions are not text
+            if isinstance(tag, PreformattedString) and not isinstance(
+                    tag, CData):
+                return
+            # Escaping/unescaping xml entities is the responsibility of the
+            # xml parser used by BeautifulSoup in its initialization. The
+            # content of the tag variable at this point should be a plain
+            # unicode string with xml entities already converted to unicode
+            # characters.
+            tag_text = fold_source_line_breaks(tag)
+            # strips indentation next to other tags
+            tag_text = tag_text.strip('\n') or tag_text
+            if tag_text:
                 node = CaptionNode.create_text(
                     tag_text, layout_info=tag.layout_info)
                 self.nodes.append(node)
diff --git a/pycaption/sami.py b/pycaption/sami.py
index 00f3d75..51f1c29 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -49,7 +49,7 @@ from cssutils import parseString, log, css as cssutils_css
 
 from .base import (
     BaseReader, BaseWriter, CaptionSet, CaptionList, Caption, CaptionNode,
-    DEFAULT_LANGUAGE_CODE,
+    DEFAULT_LANGUAGE_CODE, fold_source_line_breaks, resolve_source_line_breaks,
 )
 from .exceptions import (
     CaptionReadNoCaptions, CaptionReadSyntaxError, InvalidInputError,
@@ -216,6 +216,7 @@ class SAMIReader(BaseReader):
                 self.line = []
 
                 self._translate_tag(p, layout_info)
+                self.line = resolve_source_line_breaks(self.line)
                 caption_layout = self._get_layout_class()(
                     alignment=self.first_alignment,
                     inherit_from=layout_info
@@ -256,12 +257,9 @@ class SAMIReader(BaseReader):
             # BeautifulSoup apparently handles unescaping character codes
             # (e.g. &amp;) automatically. The following variable, therefore,
             # should contain a plain unicode string.
-            # strips indentation whitespace only
-            pattern = re.compile("^(?:[\n\r]+\\s*)?(.+)")
-            result = pattern.search(tag)
-            if not result:
+            tag_text = fold_source_line_breaks(tag)
+            if not tag_text:
                 return
-            tag_text = result.groups()[0]
             self.line.append(CaptionNode.create_text(tag_text, inherit_from))
         # convert line breaks
         elif tag.name == 'br':
-- 
2.43.0


From 4e8b35437d36000e04a38a84889743e43aa43419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:17 +0000
Subject: [PATCH 11/39] fix: decode SAMI character references exactly once

---
 pycaption/sami.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 51f1c29..6dfbff4 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -39,6 +39,7 @@ import re
 from xml.dom import SyntaxErr
 from collections import deque
 from copy import deepcopy
+from html import unescape
 from html.entities import name2codepoint
 from html.parser import HTMLParser
 from logging import FATAL
@@ -681,6 +682,7 @@ class SAMIParser(HTMLParser):
             self.queue.append(tag)
             # add tag with attributes
             for attr, value in attrs:
+                value = escape(value or '', {'"': '&quot;'})
                 tag += f' {attr.lower()}="{value}"'
             self.sami += f"<{tag}>"
 
@@ -700,25 +702,20 @@ class SAMIParser(HTMLParser):
             self.sami += f"</{closing_tag}>"
 
     def handle_entityref(self, name):
-        if name in ['gt', 'lt']:
-            self.sami += f'&{name};'
-        else:
-            try:
-                self.sami += chr(self.name2codepoint[name])
-            except (KeyError, ValueError):
-                self.sami += f'&{name}'
+        # The result is parsed once more, so it has to be escaped
+        try:
+            self.sami += escape(chr(self.name2codepoint[name]))
+        except (KeyError, ValueError):
+            self.sami += f'&amp;{name}'
 
         self.last_element = ''
 
     def handle_charref(self, name):
-        if name[0] == 'x':
-            self.sami += chr(int(name[1:], 16))
-        else:
-            self.sami += chr(int(name))
+        self.sami += escape(unescape(f'&#{name};'))
 
     # override the parser's handling of data
     def handle_data(self, data):
-        self.sami += data
+        self.sami += escape(data)
         self.last_element = ''
 
     # override the parser's feed function
@@ -748,8 +745,9 @@ class SAMIParser(HTMLParser):
         data = data.replace('<i/>', '<i>')
 
         # fix awkward tags found in some SAMIs
-        data = data.replace(';>', '>')
+        data = re.sub(r'(<[A-Za-z/][^<>]*);>', r'\1>', data)
         HTMLParser.feed(self, data)
+        self.close()
 
         # close any tags that remain in the queue
         while self.queue != deque([]):
-- 
2.43.0


From 07e1e1ef9865e23ef3b53f8ca597b97e5df3d300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:51 +0000
Subject: [PATCH 12/39] fix: WebVTT reader strips only real tags and decodes
 every character reference

---
 pycaption/webvtt.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 6e9993b..31f006a 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -2,6 +2,7 @@ import datetime
 import re
 import sys
 from copy import deepcopy
+from html import unescape
 
 from .base import BaseReader, BaseWriter, Caption, CaptionList, CaptionNode, CaptionSet
 from .exceptions import (
@@ -17,9 +18,9 @@ from .geometry import HorizontalAlignmentEnum, Layout
 # The following pattern captures [start], [end] and [cue settings] if existent
 TIMING_LINE_PATTERN = re.compile(r"^(\S+)\s+-->\s+(\S+)(?:\s+(.*?))?\s*$")
 TIMESTAMP_PATTERN = re.compile(r"^(\d+):(\d{2})(:\d{2})?\.(\d{3})")
-VOICE_SPAN_PATTERN = re.compile("<v(\\.\\w+)* ([^>]*)>")
+VOICE_SPAN_PATTERN = re.compile(r"<v(\.[^\s.>]+)*[ \t]([^>]*)>")
 OTHER_SPAN_PATTERN = re.compile(
-    r"</?([cibuv]|ruby|rt|lang|(\d+):(\d{2})(:\d{2})?\.(\d{3})).*?>"
+    r"</?([cibuv]|ruby|rt|lang|(\d+):(\d{2})(:\d{2})?\.(\d{3}))([.\s][^>]*)?>"
 )  # These WebVTT tags are stripped off the cues on conversion
 
 WEBVTT_VERSION_OF = {
@@ -181,15 +182,8 @@ class WebVTTReader(BaseReader):
         # TODO: Add support for other WebVTT tags. For now just strip them
         # off the text.
         s = OTHER_SPAN_PATTERN.sub("", s)
-        # Replace WebVTT special XML codes with plain unicode values
-        s = s.replace("&lt;", "<")
-        s = s.replace("&gt;", ">")
-        s = s.replace("&lrm;", "\u200e")
-        s = s.replace("&rlm;", "\u200f")
-        s = s.replace("&nbsp;", "\u00a0")
-        # Must do ampersand last
-        s = s.replace("&amp;", "&")
-        return s
+        # Replace character references with plain unicode values
+        return unescape(s)
 
 
 class WebVTTWriter(BaseWriter):
-- 
2.43.0


From d827e103fd50fa099c7bcb3dbb094d8cdb76c7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:18 +0000
Subject: [PATCH 13/39] fix: DFXP writer adds no space behind a span

---
 pycaption/dfxp/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 211e986..dfb3526 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -499,12 +499,12 @@ class DFXPWriter(BaseWriter):
 
             if styles:
                 if self.open_span:
-                    line = line.rstrip() + '</span> '
+                    line += '</span>'
                 line += f'<span{styles}>'
                 self.open_span = True
 
         elif self.open_span:
-            line = line.rstrip() + '</span> '
+            line += '</span>'
             self.open_span = False
 
         return line
-- 
2.43.0


From 0e9152a33401c5b11789217fd20fea39e9ddb25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:12 +0000
Subject: [PATCH 14/39] fix: SRTReader.detect does not raise on one-line input

---
 pycaption/srt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/srt.py b/pycaption/srt.py
index 9f8e3ed..1942485 100644
--- a/pycaption/srt.py
+++ b/pycaption/srt.py
@@ -9,7 +9,7 @@ from .exceptions import CaptionReadNoCaptions, InvalidInputError
 class SRTReader(BaseReader):
     def detect(self, content):
         lines = content.splitlines()
-        if lines[0].isdigit() and '-->' in lines[1]:
+        if len(lines) > 1 and lines[0].isdigit() and '-->' in lines[1]:
             return True
         else:
             return False
-- 
2.43.0


From ecbd8a2ae9c16428c74079ada603d07cc4fa9c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:15 +0000
Subject: [PATCH 15/39] fix: Size.from_string rejects a trailing newline and
 non-ASCII digits

---
 pycaption/geometry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/geometry.py b/pycaption/geometry.py
index f5cc8b0..6940a65 100644
--- a/pycaption/geometry.py
+++ b/pycaption/geometry.py
@@ -503,8 +503,8 @@ class Size:
         :rtype: Size
         """
         size_pattern = re.compile(
-            r"^(((?P<value>\d+(\.\d+)?)(?P<unit>"
-            fr"{'|'.join([unit.value for unit in UnitEnum])}))|0)$")
+            r"^(((?P<value>[0-9]+(\.[0-9]+)?)(?P<unit>"
+            fr"{'|'.join([unit.value for unit in UnitEnum])}))|0)\Z")
         match = size_pattern.search(string)
         if not match:
             raise CaptionReadSyntaxError(
-- 
2.43.0


From db88d2985d32bab148526be258491f87616a9390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:28 +0000
Subject: [PATCH 16/39] fix: DFXP writer relativizes caption-set and language
 level layouts

---
 pycaption/dfxp/base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index dfb3526..d1c68d6 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -355,7 +355,12 @@ class DFXPWriter(BaseWriter):
 
         # Loop through all captions/nodes and apply transformations to layout
         # in function of the provided or default settings
+        caption_set.layout_info = self._relativize(caption_set.layout_info)
         for lang in langs:
+            lang_layout = caption_set.get_layout_info(lang)
+            if lang_layout:
+                caption_set.set_layout_info(
+                    lang, self._relativize(lang_layout))
             for caption in caption_set.get_captions(lang):
                 caption.layout_info = self._relativize_and_fit_to_screen(
                     caption.layout_info)
@@ -398,6 +403,12 @@ class DFXPWriter(BaseWriter):
         caption_content = dfxp.prettify(formatter=None)
         return caption_content
 
+    def _relativize(self, layout_info):
+        if layout_info and self.relativize:
+            layout_info = layout_info.as_percentage_of(
+                self.video_width, self.video_height)
+        return layout_info
+
     @staticmethod
     def _get_region_creator_class():
         """Hook method for providing a custom RegionCreator"""
-- 
2.43.0


From 23774faa140c8561df2f5fe26443e1904801b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:20 +0000
Subject: [PATCH 17/39] fix: SCC line length check keeps the long lines of
 captions sharing a start time

---
 pycaption/scc/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index 5846f55..a38796d 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -254,10 +254,7 @@ class SCCReader(BaseReader):
             text_too_long = [
                 line for line in caption_text.split("\n") if len(line) > 32
             ]
-            if caption_start in lines_too_long:
-                lines_too_long[caption_start] = text_too_long
-            else:
-                lines_too_long[caption_start].extend(text_too_long)
+            lines_too_long[caption_start].extend(text_too_long)
 
         msg = ""
         if bool(lines_too_long.keys()):
-- 
2.43.0


From 31693aff74c72dbdbaa07d7d4395342ba504d33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:46 +0000
Subject: [PATCH 18/39] fix: SAMI writer loses the other languages' captions
 when the first language has none

---
 pycaption/sami.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 6dfbff4..a2244aa 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -498,6 +498,8 @@ class SAMIWriter(BaseWriter):
             if later:
                 last_sync = later[0]
                 last_sync.insert_before(sync)
+            else:
+                sami.body.append(sync)
         return sami, sync
 
     def _recreate_blank_tag(self, sami, caption, lang, primary, captions):
-- 
2.43.0


From ee17eab7c297f26ed17b919a1303ae5baf294018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:47 +0000
Subject: [PATCH 19/39] fix: SAMI reader lists languages in document order
 instead of hash order

---
 pycaption/sami.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index a2244aa..76a9c0d 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -644,7 +644,8 @@ class SAMIParser(HTMLParser):
         self.line = ''
         self.styles = {}
         self.queue = deque()
-        self.langs = set()
+        # a dict, because the languages are kept in document order
+        self.langs = {}
         self.last_element = ''
         self.name2codepoint = name2codepoint.copy()
         self.name2codepoint['apos'] = 0x0027
@@ -669,7 +670,7 @@ class SAMIParser(HTMLParser):
             # if no language detected, set it as the default
             lang = lang or DEFAULT_LANGUAGE_CODE
             attrs.append(('lang', lang))
-            self.langs.add(lang)
+            self.langs[lang] = None
 
         # clean-up line breaks
         if tag == 'br':
@@ -724,7 +725,7 @@ class SAMIParser(HTMLParser):
     def feed(self, data):
         """
         :param data: Raw SAMI unicode string
-        :returns: tuple (str, dict, set)
+        :returns: tuple (str, dict, list)
         """
         no_cc = 'no closed captioning available'
 
@@ -756,7 +757,7 @@ class SAMIParser(HTMLParser):
             closing_tag = self.queue.pop()
             self.sami += f"</{closing_tag}>"
 
-        return self.sami, self.styles, self.langs
+        return self.sami, self.styles, list(self.langs)
 
     # parse the SAMI's stylesheet
     def _css_parse(self, css):
-- 
2.43.0


From 37878bb6b3337aa0781dad9dd134670bb5aabdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:49 +0000
Subject: [PATCH 20/39] fix: SAMI reader adds the captions of a language's
 regional variants to that language

---
 pycaption/sami.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 76a9c0d..984d5ee 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -192,7 +192,7 @@ class SAMIReader(BaseReader):
         captions = CaptionList(layout_info=parent_layout)
         milliseconds = 0
 
-        for p in sami_soup.select(f'p[lang|={language}]'):
+        for p in sami_soup.find_all('p', lang=language):
             start_str = p.parent.get('start')
             if not start_str:
                 raise CaptionReadTimingError(
@@ -669,6 +669,8 @@ class SAMIParser(HTMLParser):
 
             # if no language detected, set it as the default
             lang = lang or DEFAULT_LANGUAGE_CODE
+            attrs = [(attr, value) for attr, value in attrs
+                     if attr.lower() != 'lang']
             attrs.append(('lang', lang))
             self.langs[lang] = None
 
-- 
2.43.0


From 151f05e3e46b1e88fe1cb2815958f7ef5ceff685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:52 +0000
Subject: [PATCH 21/39] fix: DFXP reader returns the captions of nested divs
 twice

---
 pycaption/dfxp/base.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index d1c68d6..5480f54 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -105,7 +105,12 @@ class DFXPReader(BaseReader):
 
         # Each div represents all the captions for a single language.
         for div in dfxp_document.find_all('div'):
-            lang = div.attrs.get('xml:lang', default_language)
+            # A nested div without a language has the language of its parent
+            lang = default_language
+            for tag in [div] + div.find_parents('div'):
+                if 'xml:lang' in tag.attrs:
+                    lang = tag.attrs['xml:lang']
+                    break
 
             captions = self._convert_div_to_caption_list(div)
             if lang in caption_dict:
@@ -138,7 +143,9 @@ class DFXPReader(BaseReader):
     def _convert_div_to_caption_list(self, div):
         return CaptionList(
             [self._convert_p_tag_to_caption(p_tag)
-             for p_tag in div.find_all('p') if p_tag.get_text().strip()],
+             for p_tag in div.find_all('p') if p_tag.get_text().strip()
+             # The captions of nested divs are those divs' own
+             and p_tag.find_parent('div') is div],
             div.layout_info
         )
 
-- 
2.43.0


From 5c225b0bdd0b71ab1b4450a58b6a3ca2e7e1bd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:47 +0000
Subject: [PATCH 22/39] fix: SAMI writer leaves a language undeclared when its
 name starts another one's

---
 pycaption/sami.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index 984d5ee..cdf4643 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -530,8 +530,7 @@ class SAMIWriter(BaseWriter):
                     attr, value, caption_set.layout_info)
 
         for lang in caption_set.get_languages():
-            lang_string = f'lang: {lang}'
-            if lang_string not in stylesheet:
+            if caption_set.get_style(lang).get('lang') != lang:
                 stylesheet += self._recreate_style_block(
                     lang, {'lang': lang}, caption_set.get_layout_info(lang))
 
-- 
2.43.0


From 62f95d13a63bb69e97ec03f79e7e8137cdba8061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:36 +0000
Subject: [PATCH 23/39] fix: captions and caption sets made without styles
 share one dict

---
 pycaption/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycaption/base.py b/pycaption/base.py
index e2a9247..1c74a1c 100644
--- a/pycaption/base.py
+++ b/pycaption/base.py
@@ -228,7 +228,7 @@ class Caption:
     for its display.
     """
 
-    def __init__(self, start, end, nodes, style={}, layout_info=None):
+    def __init__(self, start, end, nodes, style=None, layout_info=None):
         """
         Initialize the Caption object
         :param start: The start time in microseconds
@@ -256,7 +256,7 @@ class Caption:
         self.start = start
         self.end = end
         self.nodes = nodes
-        self.style = style
+        self.style = {} if style is None else style
         self.layout_info = layout_info
 
     def is_empty(self):
@@ -359,14 +359,14 @@ class CaptionSet:
     by all the children.
     """
 
-    def __init__(self, captions, styles={}, layout_info=None):
+    def __init__(self, captions, styles=None, layout_info=None):
         """
         :param captions: A dictionary of the format {'language': CaptionList}
         :param styles: A dictionary with CSS-like styling rules
         :param Layout layout_info: A Layout object with the positioning info
         """
         self._captions = captions
-        self._styles = styles
+        self._styles = {} if styles is None else styles
         self.layout_info = layout_info
 
     def set_captions(self, lang, captions):
-- 
2.43.0


From 90d88db5590d6e842ec508c4793110030cfd1f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:37 +0000
Subject: [PATCH 24/39] fix: SCC reader carries captions and modes over from an
 earlier read

---
 pycaption/scc/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index a38796d..d2b0184 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -170,6 +170,10 @@ class SCCReader(BaseReader):
     """
 
     def __init__(self, *args, **kw):
+        self._reset()
+
+    def _reset(self):
+        """Forget everything about the document that was read before"""
         self.caption_stash = CaptionCreator()
         self.time_translator = _SccTimeTranslator()
 
@@ -233,6 +237,7 @@ class SCCReader(BaseReader):
         if not isinstance(content, str):
             raise InvalidInputError("The content is not a unicode string.")
 
+        self._reset()
         self.simulate_roll_up = simulate_roll_up
         self.time_translator.offset = offset * 1000000
         # split lines
-- 
2.43.0


From 46b189eb3d458c6579d754521146b825b520709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:38 +0000
Subject: [PATCH 25/39] fix: a style that is never closed leaks its span into
 later captions and writes

---
 pycaption/dfxp/base.py   | 6 ++++++
 pycaption/dfxp/extras.py | 6 ++++++
 pycaption/sami.py        | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 5480f54..56c8163 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -474,6 +474,7 @@ class DFXPWriter(BaseWriter):
 
     def _recreate_text(self, caption, dfxp, caption_set=None, lang=None):
         line = ''
+        self.open_span = False
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
@@ -486,6 +487,11 @@ class DFXPWriter(BaseWriter):
                 line = self._recreate_span(
                     line, node, dfxp, caption_set, caption, lang)
 
+        if self.open_span:
+            # Never leave a span open: it would continue in the next caption
+            line = line.rstrip() + '</span>'
+            self.open_span = False
+
         return line.rstrip()
 
     def _recreate_span(self, line, node, dfxp, caption_set=None, caption=None,
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 70a60c8..f7fe80d 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -192,6 +192,7 @@ class LegacyDFXPWriter(BaseWriter):
 
     def _recreate_text(self, caption, dfxp):
         line = ''
+        self.open_span = False
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
@@ -203,6 +204,11 @@ class LegacyDFXPWriter(BaseWriter):
             elif node.type_ == CaptionNode.STYLE:
                 line = self._recreate_span(line, node, dfxp)
 
+        if self.open_span:
+            # Never leave a span open: it would continue in the next caption
+            line = line.rstrip() + '</span>'
+            self.open_span = False
+
         return line.rstrip()
 
     def _recreate_span(self, line, node, dfxp):
diff --git a/pycaption/sami.py b/pycaption/sami.py
index cdf4643..daa3ecb 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -568,6 +568,7 @@ class SAMIWriter(BaseWriter):
 
     def _recreate_text(self, caption):
         line = ''
+        self.open_span = False
 
         for node in caption:
             if node.type_ == CaptionNode.TEXT:
@@ -577,6 +578,11 @@ class SAMIWriter(BaseWriter):
             elif node.type_ == CaptionNode.STYLE:
                 line = self._recreate_line_style(line, node)
 
+        if self.open_span:
+            # Never leave a span open: it would continue in the next caption
+            line = line.rstrip() + '</span>'
+            self.open_span = False
+
         return line.rstrip()
 
     def _recreate_line_style(self, line, node):
-- 
2.43.0


From c4d1455f5c669cdd0a52363460e570e9f51282d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:47 +0000
Subject: [PATCH 26/39] fix: DFXP writer drops the position of text nodes that
 differs from their caption's

---
 pycaption/dfxp/base.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 56c8163..77dd37b 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -337,6 +337,7 @@ class DFXPWriter(BaseWriter):
             'write_inline_positioning', False)
         self.p_style = False
         self.open_span = False
+        self.open_span_region_id = None
         self.region_creator = None
         super().__init__(*args, **kwargs)
 
@@ -475,10 +476,12 @@ class DFXPWriter(BaseWriter):
     def _recreate_text(self, caption, dfxp, caption_set=None, lang=None):
         line = ''
         self.open_span = False
+        self.open_span_region_id = None
 
         for node in caption.nodes:
             if node.type_ == CaptionNode.TEXT:
-                line += self._encode(node.content)
+                line += self._recreate_positioned_text(
+                    node, caption, caption_set, lang)
 
             elif node.type_ == CaptionNode.BREAK:
                 line = line.rstrip() + '<br/>\n    '
@@ -494,6 +497,30 @@ class DFXPWriter(BaseWriter):
 
         return line.rstrip()
 
+    def _recreate_positioned_text(self, node, caption, caption_set, lang):
+        """Encodes a text node, inside a span of its own if its position is
+        not the one of the surrounding tag
+        """
+        text = self._encode(node.content)
+        if not node.layout_info:
+            return text
+
+        region_id, region_attribs = self.region_creator.get_positioning_info(
+            lang, caption_set, caption, node)
+        surrounding_region_id = self.open_span_region_id
+        if surrounding_region_id is None:
+            surrounding_region_id, _ = (
+                self.region_creator.get_positioning_info(
+                    lang, caption_set, caption))
+        if region_id == surrounding_region_id:
+            return text
+
+        attributes = f' region="{region_id}"'
+        if self.write_inline_positioning:
+            for key, value in list(region_attribs.items()):
+                attributes += f' {key}="{value}"'
+        return f'<span{attributes}>{text}</span>'
+
     def _recreate_span(self, line, node, dfxp, caption_set=None, caption=None,
                        lang=None):
         # TODO - This method seriously has to go away!
@@ -504,6 +531,7 @@ class DFXPWriter(BaseWriter):
         if node.start:
             styles = ''
 
+            region_id = None
             content_with_style = _recreate_style(node.content, dfxp)
             for style, value in list(content_with_style.items()):
                 styles += f' {style}="{value}"'
@@ -526,10 +554,12 @@ class DFXPWriter(BaseWriter):
                     line += '</span>'
                 line += f'<span{styles}>'
                 self.open_span = True
+                self.open_span_region_id = region_id
 
         elif self.open_span:
             line += '</span>'
             self.open_span = False
+            self.open_span_region_id = None
 
         return line
 
-- 
2.43.0


From bf0c8e0d0bb765196ee07445fc114261da3c3d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 27/39] fix: WebVTT writer mixes up the cues of nodes with
 different layouts

---
 pycaption/webvtt.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/pycaption/webvtt.py b/pycaption/webvtt.py
index 31f006a..22cc427 100644
--- a/pycaption/webvtt.py
+++ b/pycaption/webvtt.py
@@ -263,7 +263,10 @@ class WebVTTWriter(BaseWriter):
         """
         :type caption: Caption
         """
-        layout_groups = self._group_cues_by_layout(caption.nodes, caption_set)
+        default_layout = caption.layout_info or self.global_layout
+        layout_groups = self._group_cues_by_layout(
+            caption.nodes, caption_set, default_layout
+        )
 
         start = self._timestamp(caption.start)
         end = self._timestamp(caption.end)
@@ -281,9 +284,10 @@ class WebVTTWriter(BaseWriter):
                 cue_style_tags[0] += tags[0]
                 cue_style_tags[1] = tags[1] + cue_style_tags[1]
 
-        for cue_text, layout in layout_groups:
-            if not layout:
-                layout = caption.layout_info or self.global_layout
+        for i, (cue_text, layout) in enumerate(layout_groups):
+            if i > 0:
+                # A blank line separates cues
+                output = output.rstrip("\n") + "\n\n"
             cue_settings = self._convert_positioning(layout)
             output += timespan + cue_settings + "\n"
             output += cue_style_tags[0] + cue_text + cue_style_tags[1] + "\n"
@@ -380,15 +384,20 @@ class WebVTTWriter(BaseWriter):
 
         return cue_settings
 
-    def _group_cues_by_layout(self, nodes, caption_set):
+    def _group_cues_by_layout(self, nodes, caption_set, default_layout=None):
         """
         Convert a Caption's nodes to WebVTT cue or cues (depending on
         whether they have the same positioning or not).
+        :param default_layout: The layout of the nodes without one of their own
         """
         if not nodes:
             return []
 
-        current_layout = None
+        current_layout = default_layout
+        has_text = False
+        # Where the tags opened after the last text begin. They belong to the
+        # text that follows.
+        open_tags = None
 
         # A list with layout groups. Since WebVTT only support positioning
         # for different cues, each layout group has to be represented in a
@@ -399,17 +408,22 @@ class WebVTTWriter(BaseWriter):
         s = ""
         for i, node in enumerate(nodes):
             if node.type_ == CaptionNode.TEXT:
-                if s and current_layout and node.layout_info != current_layout:
+                layout = node.layout_info or default_layout
+                if has_text and layout != current_layout:
                     # If the positioning changes from one text node to
                     # another, a new WebVTT cue has to be created.
-                    layout_groups.append((s, current_layout))
-                    s = ""
+                    if open_tags is None:
+                        open_tags = len(s)
+                    layout_groups.append((s[:open_tags], current_layout))
+                    s = s[open_tags:]
+                has_text = True
+                open_tags = None
                 # ATTENTION: This is where the plain unicode node content is
                 # finally encoded as WebVTT.
                 s += self._encode_illegal_characters(node.content) or "&nbsp;"
                 # An arrow may also be split between adjacent text nodes.
                 s = s.replace("-->", "--&gt;")
-                current_layout = node.layout_info
+                current_layout = layout
             elif node.type_ == CaptionNode.STYLE:
                 resulting_style = self._calculate_resulting_style(
                     node.content, caption_set
@@ -423,8 +437,11 @@ class WebVTTWriter(BaseWriter):
                     if style in resulting_style and resulting_style[style]:
                         tags = self._convert_style_to_text_tag(style)
                         if node.start:
+                            if open_tags is None:
+                                open_tags = len(s)
                             s += tags[0]
                         else:
+                            open_tags = None
                             s += tags[1]
 
                 # TODO: Refactor pycaption and eliminate the concept of a
-- 
2.43.0


From b58dc67f0106b5f72ec90666630e2a0b6cc99355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 28/39] fix: DFXP writers write style values, ids and languages
 unescaped

---
 pycaption/dfxp/base.py   | 47 ++++++++++++++++++++++++++++++----------
 pycaption/dfxp/extras.py | 29 +++++++++++++++----------
 2 files changed, 54 insertions(+), 22 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 77dd37b..fd506e2 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -58,6 +58,10 @@ OFFSET_TIME_PATTERN = (r'(?P<offset_time>(?P<time_count>\d+(\.\d+)?)'
 TIME_EXPRESSION_PATTERN = re.compile(
     fr'^({CLOCK_TIME_PATTERN}|{OFFSET_TIME_PATTERN})$')
 
+# What can't be part of an xml:id, or would make two of them equal
+INVALID_XML_ID_PATTERN = re.compile(
+    r'[^A-Za-z0-9_.-]|^[0-9.-]|_(?=x)')
+
 MICROSECONDS_PER_UNIT = {
     "hours": 3600000000,
     "minutes": 60000000,
@@ -355,7 +359,7 @@ class DFXPWriter(BaseWriter):
         langs = caption_set.get_languages()
         if force in langs:
             langs = [force]
-            dfxp.find('tt')['xml:lang'] = force
+            dfxp.find('tt')['xml:lang'] = escape_attribute(force)
         else:
             dfxp.find('tt')['xml:lang'] = DFXP_DEFAULT_LANGUAGE_CODE
 
@@ -392,7 +396,7 @@ class DFXPWriter(BaseWriter):
 
         for lang in langs:
             div = dfxp.new_tag('div')
-            div['xml:lang'] = lang
+            div['xml:lang'] = escape_attribute(lang)
             self._assign_positioning_data(div, lang, caption_set)
 
             for caption in caption_set.get_captions(lang):
@@ -447,13 +451,14 @@ class DFXPWriter(BaseWriter):
     def _recreate_styling_tag(self, style, content, dfxp):
         # TODO - should be drastically simplified: if attributes : append
         dfxp_style = dfxp.new_tag('style')
-        dfxp_style.attrs.update({'xml:id': style})
+        style_id = create_xml_id(style)
+        dfxp_style.attrs.update({'xml:id': style_id})
 
         attributes = _recreate_style(content, dfxp)
         dfxp_style.attrs.update(attributes)
 
         new_tag = dfxp.new_tag('style')
-        new_tag.attrs.update({'xml:id': style})
+        new_tag.attrs.update({'xml:id': style_id})
         if dfxp_style != new_tag:
             dfxp.find('styling').append(dfxp_style)
 
@@ -1229,24 +1234,44 @@ class RegionCreator:
                 region.extract()
 
 
+def escape_attribute(value):
+    """Escapes an attribute value. The documents are serialized without any
+    further substitution.
+    """
+    return escape(str(value), {'"': '&quot;'})
+
+
+def create_xml_id(name):
+    """Returns the xml:id for a name: the name itself if it is a valid ID,
+    otherwise a valid one, that no other name has
+    """
+    def encode(match):
+        return ''.join(f'_x{ord(char):04X}_' for char in match.group())
+
+    return INVALID_XML_ID_PATTERN.sub(encode, str(name)) or '_x_'
+
+
 def _recreate_style(content, dfxp):
     dfxp_style = {}
 
     if 'class' in content:
-        if dfxp.find("style", {"xml:id": content['class']}):
-            dfxp_style['style'] = content['class']
+        style_id = create_xml_id(content['class'])
+        if dfxp.find("style", {"xml:id": style_id}):
+            dfxp_style['style'] = style_id
     if 'text-align' in content:
-        dfxp_style['tts:textAlign'] = content['text-align']
+        dfxp_style['tts:textAlign'] = escape_attribute(content['text-align'])
     if 'italics' in content:
         dfxp_style['tts:fontStyle'] = 'italic'
     if 'font-family' in content:
-        dfxp_style['tts:fontFamily'] = content['font-family']
+        dfxp_style['tts:fontFamily'] = escape_attribute(
+            content['font-family'])
     if 'font-size' in content:
-        dfxp_style['tts:fontSize'] = content['font-size']
+        dfxp_style['tts:fontSize'] = escape_attribute(content['font-size'])
     if 'color' in content:
-        dfxp_style['tts:color'] = content['color']
+        dfxp_style['tts:color'] = escape_attribute(content['color'])
     if 'display-align' in content:
-        dfxp_style['tts:displayAlign'] = content['display-align']
+        dfxp_style['tts:displayAlign'] = escape_attribute(
+            content['display-align'])
 
     return dfxp_style
 
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index f7fe80d..3618692 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -6,7 +6,9 @@ from xml.sax.saxutils import escape
 
 from bs4 import BeautifulSoup
 
-from .base import DFXPWriter, DFXP_DEFAULT_REGION
+from .base import (
+    DFXPWriter, DFXP_DEFAULT_REGION, create_xml_id, escape_attribute,
+)
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
 LEGACY_DFXP_BASE_MARKUP = '''
@@ -124,7 +126,7 @@ class LegacyDFXPWriter(BaseWriter):
 
         for lang in langs:
             div = dfxp.new_tag('div')
-            div['xml:lang'] = lang
+            div['xml:lang'] = escape_attribute(lang)
 
             for caption in caption_set.get_captions(lang):
                 if caption.style:
@@ -165,13 +167,14 @@ class LegacyDFXPWriter(BaseWriter):
 
     def _recreate_styling_tag(self, style, content, dfxp):
         dfxp_style = dfxp.new_tag('style')
-        dfxp_style.attrs.update({'xml:id': style})
+        style_id = create_xml_id(style)
+        dfxp_style.attrs.update({'xml:id': style_id})
 
         attributes = self._recreate_style(content, dfxp)
         dfxp_style.attrs.update(attributes)
 
         new_tag = dfxp.new_tag('style')
-        new_tag.attrs.update({'xml:id': style})
+        new_tag.attrs.update({'xml:id': style_id})
         if dfxp_style != new_tag:
             dfxp.find('styling').append(dfxp_style)
 
@@ -238,19 +241,23 @@ class LegacyDFXPWriter(BaseWriter):
             if dfxp.find('region', {'xml:id': content['region']}):
                 dfxp_style['region'] = content['region']
         if 'class' in content:
-            if dfxp.find("style", {"xml:id": content['class']}):
-                dfxp_style['style'] = content['class']
+            style_id = create_xml_id(content['class'])
+            if dfxp.find("style", {"xml:id": style_id}):
+                dfxp_style['style'] = style_id
         if 'text-align' in content:
-            dfxp_style['tts:textAlign'] = content['text-align']
+            dfxp_style['tts:textAlign'] = escape_attribute(
+                content['text-align'])
         if 'italics' in content:
             dfxp_style['tts:fontStyle'] = 'italic'
         if 'font-family' in content:
-            dfxp_style['tts:fontFamily'] = content['font-family']
+            dfxp_style['tts:fontFamily'] = escape_attribute(
+                content['font-family'])
         if 'font-size' in content:
-            dfxp_style['tts:fontSize'] = content['font-size']
+            dfxp_style['tts:fontSize'] = escape_attribute(content['font-size'])
         if 'color' in content:
-            dfxp_style['tts:color'] = content['color']
+            dfxp_style['tts:color'] = escape_attribute(content['color'])
         if 'display-align' in content:
-            dfxp_style['tts:displayAlign'] = content['display-align']
+            dfxp_style['tts:displayAlign'] = escape_attribute(
+                content['display-align'])
 
         return dfxp_style
-- 
2.43.0


From 3f0cf1126a6cf174bc6268a28f4e0df8cde8a0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:12 +0000
Subject: [PATCH 29/39] fix: DFXP writer repeats an attribute of spans with
 inline positioning

---
 pycaption/dfxp/base.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index fd506e2..ccfa568 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -537,22 +537,17 @@ class DFXPWriter(BaseWriter):
             styles = ''
 
             region_id = None
-            content_with_style = _recreate_style(node.content, dfxp)
-            for style, value in list(content_with_style.items()):
-                styles += f' {style}="{value}"'
+            attributes = _recreate_style(node.content, dfxp)
             if node.layout_info:
                 region_id, region_attribs = (
                     self.region_creator.get_positioning_info(
                         lang, caption_set, caption, node
                     ))
-                styles += f' region="{region_id}"'
+                attributes['region'] = region_id
                 if self.write_inline_positioning:
-                    styles += ' ' + ' '.join(
-                        [
-                            f'{k_}="{v_}"'
-                            for k_, v_ in list(region_attribs.items())
-                        ]
-                    )
+                    attributes.update(region_attribs)
+            for attribute, value in list(attributes.items()):
+                styles += f' {attribute}="{value}"'
 
             if styles:
                 if self.open_span:
-- 
2.43.0


From 29c43a630e0e1f12a9f3fb2d07586f1adbe7d316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:25 +0000
Subject: [PATCH 30/39] fix: DFXP writers give regions the ids of styles

---
 pycaption/dfxp/base.py   | 16 +++++++++++++---
 pycaption/dfxp/extras.py | 11 ++++++-----
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index ccfa568..19edd88 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1064,6 +1064,8 @@ class RegionCreator:
         self._caption_set = caption_set
         self._region_map = {}
         self._id_seed = 0
+        self._default_region_id = create_unused_id(
+            dfxp, DFXP_DEFAULT_REGION_ID)
         self._assigned_region_ids = set()
 
     @staticmethod
@@ -1141,7 +1143,7 @@ class RegionCreator:
         # Creates the default region
         default_region_map = self._create_unique_regions(
             [DFXP_DEFAULT_REGION],
-            self._dfxp, lambda: DFXP_DEFAULT_REGION_ID
+            self._dfxp, lambda: self._default_region_id
         )
         unique_regions = self._collect_unique_regions(
             self._caption_set, DFXP_DEFAULT_REGION)
@@ -1159,7 +1161,7 @@ class RegionCreator:
         """
         new_id = f'{prefix}{self._id_seed}'
         self._id_seed += 1
-        return new_id
+        return create_unused_id(self._dfxp, new_id)
 
     def get_positioning_info(
             self, lang, caption_set=None, caption=None, caption_node=None):
@@ -1205,7 +1207,7 @@ class RegionCreator:
         # Make sure the default region ID/ attributes are always returned
         # as fallback
         if not region_id:
-            region_id = DFXP_DEFAULT_REGION_ID
+            region_id = self._default_region_id
 
         positioning_attributes = _convert_layout_to_attributes(layout_info)
 
@@ -1246,6 +1248,14 @@ def create_xml_id(name):
     return INVALID_XML_ID_PATTERN.sub(encode, str(name)) or '_x_'
 
 
+def create_unused_id(dfxp, xml_id):
+    """Returns the id, changed if some other element of the document has it
+    """
+    while dfxp.find(attrs={'xml:id': xml_id}):
+        xml_id += '_'
+    return xml_id
+
+
 def _recreate_style(content, dfxp):
     dfxp_style = {}
 
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index 3618692..bbe0d60 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -7,7 +7,8 @@ from xml.sax.saxutils import escape
 from bs4 import BeautifulSoup
 
 from .base import (
-    DFXPWriter, DFXP_DEFAULT_REGION, create_xml_id, escape_attribute,
+    DFXPWriter, DFXP_DEFAULT_REGION, create_unused_id, create_xml_id,
+    escape_attribute,
 )
 from ..base import BaseWriter, CaptionNode, merge_concurrent_captions
 
@@ -114,8 +115,9 @@ class LegacyDFXPWriter(BaseWriter):
 
         # XXX For now we will always use this default region. In the future if
         # regions are provided, they will be kept
+        region_id = create_unused_id(dfxp, LEGACY_DFXP_DEFAULT_REGION_ID)
         dfxp = self._recreate_region_tag(
-            LEGACY_DFXP_DEFAULT_REGION_ID, LEGACY_DFXP_DEFAULT_REGION, dfxp)
+            region_id, LEGACY_DFXP_DEFAULT_REGION, dfxp)
 
         body = dfxp.find('body')
 
@@ -131,11 +133,10 @@ class LegacyDFXPWriter(BaseWriter):
             for caption in caption_set.get_captions(lang):
                 if caption.style:
                     caption_style = caption.style
-                    caption_style.update(
-                        {'region': LEGACY_DFXP_DEFAULT_REGION_ID})
+                    caption_style.update({'region': region_id})
                 else:
                     caption_style = {'class': LEGACY_DFXP_DEFAULT_STYLE_ID,
-                                     'region': LEGACY_DFXP_DEFAULT_REGION_ID}
+                                     'region': region_id}
                 p = self._recreate_p_tag(caption, caption_style, dfxp)
                 div.append(p)
 
-- 
2.43.0


From d3c68c75e94e99d99d15e493a68da113eed617af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:25 +0000
Subject: [PATCH 31/39] fix: legacy DFXP writer defines a region that nothing
 refers to

---
 pycaption/dfxp/extras.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index bbe0d60..bc5bcfe 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -142,6 +142,10 @@ class LegacyDFXPWriter(BaseWriter):
 
             body.append(div)
 
+        if not dfxp.find('p'):
+            # No caption refers to the region
+            dfxp.find('region').extract()
+
         caption_content = dfxp.prettify(formatter=None)
         return caption_content
 
-- 
2.43.0


From 882e00f8127301a034158c12d258acf2947e5468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:11 +0000
Subject: [PATCH 32/39] fix: DFXP writer drops the styles of an element that
 refers to several

---
 pycaption/dfxp/base.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 19edd88..18cc636 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1258,11 +1258,17 @@ def create_unused_id(dfxp, xml_id):
 
 def _recreate_style(content, dfxp):
     dfxp_style = {}
-
-    if 'class' in content:
-        style_id = create_xml_id(content['class'])
-        if dfxp.find("style", {"xml:id": style_id}):
-            dfxp_style['style'] = style_id
+    # An element may refer to several styles
+    class_names = content.get('classes')
+    if not class_names and 'class' in content:
+        class_names = [content['class']]
+    style_ids = [create_xml_id(name) for name in class_names or []]
+    style_ids = [
+        style_id for style_id in style_ids
+        if dfxp.find("style", {"xml:id": style_id})
+    ]
+    if style_ids:
+        dfxp_style['style'] = ' '.join(style_ids)
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = escape_attribute(content['text-align'])
     if 'italics' in content:
-- 
2.43.0


From 29e3b0eee7c8fb29d0f908adae3b46bbda27d335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:12 +0000
Subject: [PATCH 33/39] fix: DFXP writers write italics for a style that turns
 them off

---
 pycaption/dfxp/base.py   | 2 +-
 pycaption/dfxp/extras.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycaption/dfxp/base.py b/pycaption/dfxp/base.py
index 18cc636..5c2ece1 100644
--- a/pycaption/dfxp/base.py
+++ b/pycaption/dfxp/base.py
@@ -1271,7 +1271,7 @@ def _recreate_style(content, dfxp):
         dfxp_style['style'] = ' '.join(style_ids)
     if 'text-align' in content:
         dfxp_style['tts:textAlign'] = escape_attribute(content['text-align'])
-    if 'italics' in content:
+    if content.get('italics'):
         dfxp_style['tts:fontStyle'] = 'italic'
     if 'font-family' in content:
         dfxp_style['tts:fontFamily'] = escape_attribute(
diff --git a/pycaption/dfxp/extras.py b/pycaption/dfxp/extras.py
index bc5bcfe..354c211 100644
--- a/pycaption/dfxp/extras.py
+++ b/pycaption/dfxp/extras.py
@@ -252,7 +252,7 @@ class LegacyDFXPWriter(BaseWriter):
         if 'text-align' in content:
             dfxp_style['tts:textAlign'] = escape_attribute(
                 content['text-align'])
-        if 'italics' in content:
+        if content.get('italics'):
             dfxp_style['tts:fontStyle'] = 'italic'
         if 'font-family' in content:
             dfxp_style['tts:fontFamily'] = escape_attribute(
-- 
2.43.0


From d7133d9991260f50ff3db2c3b02c88903b5dc6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:34 +0000
Subject: [PATCH 34/39] fix: SAMIWriter writes the quotes of a span's styles
 and class unescaped

---
 pycaption/sami.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycaption/sami.py b/pycaption/sami.py
index daa3ecb..4459b32 100644
--- a/pycaption/sami.py
+++ b/pycaption/sami.py
@@ -601,13 +601,15 @@ class SAMIWriter(BaseWriter):
         style = ''
         klass = ''
         if 'class' in content:
-            klass += f' class="{content["class"]}"'
+            klass = escape(str(content['class']), {'"': '&quot;'})
+            klass = f' class="{klass}"'
 
         for attr, value in list(self._recreate_style(content).items()):
             style += f'{attr}:{value};'
 
         if style or klass:
             if style:
+                style = escape(style, {'"': '&quot;'})
                 style = f' style="{style}"'
             line += f'<span{klass}{style}>'
             self.open_span = True
-- 
2.43.0


From 4d0177f738cc6f84c51959e8fec50a439489717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:24 +0000
Subject: [PATCH 35/39] fix: SCC captions are positioned relative to the
 caption before them

---
 pycaption/scc/specialized_collections.py | 6 ++++++
 pycaption/scc/state_machines.py          | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/pycaption/scc/specialized_collections.py b/pycaption/scc/specialized_collections.py
index 1bd5bf9..abe728b 100644
--- a/pycaption/scc/specialized_collections.py
+++ b/pycaption/scc/specialized_collections.py
@@ -488,6 +488,12 @@ class InstructionNodeCreator:
         offset_after_break = is_offset and self.has_break_before(self._collection)
         if not offset_after_break:
             # Tab offsets after line breaks will be ignored to avoid repositioning
+            if self.is_empty():
+                # there is no text yet to break from or to move away from
+                self._collection = [
+                    node for node in self._collection if node.is_italics_node()
+                ]
+                self._position_tracer.restart()
             self._position_tracer.update_positioning(positioning)
 
     def __iter__(self):
diff --git a/pycaption/scc/state_machines.py b/pycaption/scc/state_machines.py
index de5a4e8..dba0775 100644
--- a/pycaption/scc/state_machines.py
+++ b/pycaption/scc/state_machines.py
@@ -19,6 +19,13 @@ class _PositioningTracker:
         # next positioning is actually a Tab Offset
         self._last_column = None
 
+    def restart(self):
+        """Forget the position of the text that came before"""
+        self._positions = [None]
+        self._break_required = False
+        self._repositioning_required = False
+        self._last_column = None
+
     def update_positioning(self, positioning):
         """Being notified of a position change, updates the internal state,
         to as to be able to tell if it was a trivial change (a simple line
-- 
2.43.0


From a255b77852a4f92266201e8f6ecea5d092208793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:24 +0000
Subject: [PATCH 36/39] fix: the SCC reader drops the solid block character

---
 pycaption/scc/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycaption/scc/constants.py b/pycaption/scc/constants.py
index e8a9f39..5307854 100644
--- a/pycaption/scc/constants.py
+++ b/pycaption/scc/constants.py
@@ -641,7 +641,7 @@ CHARACTERS = {
     '7c': '÷',
     'fd': 'Ñ',
     'fe': 'ñ',
-    '7f': '',
+    '7f': '█',
     '80': ''
 }
 
-- 
2.43.0


From b8d96522381306c43dfa5c2f0be7ab3a88974b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:24 +0000
Subject: [PATCH 37/39] fix: some SCC preamble codes do not end italics

---
 pycaption/scc/constants.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pycaption/scc/constants.py b/pycaption/scc/constants.py
index 5307854..0159503 100644
--- a/pycaption/scc/constants.py
+++ b/pycaption/scc/constants.py
@@ -1134,7 +1134,7 @@ COMMAND_LABELS = {
     "9179": "row 02, column 16, with white underlined text.",
     "917a": "row 02, column 20, with plain white text.",
     "91fb": "row 02, column 20, with white underlined text.",
-    "91fc": "row 02, column 24, with plain white text.",
+    "917c": "row 02, column 24, with plain white text.",
     "91fd": "row 02, column 24, with white underlined text.",
     "91fe": "row 02, column 28, with plain white text.",
     "917f": "row 02, column 28, with white underlined text.",
@@ -1198,7 +1198,7 @@ COMMAND_LABELS = {
     "9279": "row 04, column 16, with white underlined text.",
     "927a": "row 04, column 20, with plain white text.",
     "92fb": "row 04, column 20, with white underlined text.",
-    "92fc": "row 04, column 24, with plain white text.",
+    "927c": "row 04, column 24, with plain white text.",
     "92fd": "row 04, column 24, with white underlined text.",
     "92fe": "row 04, column 28, with plain white text.",
     "927f": "row 04, column 28, with white underlined text.",
@@ -1236,7 +1236,7 @@ COMMAND_LABELS = {
     "15df": "row 05, column 28, with white underlined text.",
     "15e0": "row 06, column 00, with plain white text.",
     "1561": "row 06, column 00, with white underlined text.",
-    "15462": "row 06, column 00, with plain green text.",
+    "1562": "row 06, column 00, with plain green text.",
     "15e3": "row 06, column 00, with green underlined text.",
     "1564": "row 06, column 00, with plain blue text.",
     "15e5": "row 06, column 00, with blue underlined text.",
@@ -1262,7 +1262,7 @@ COMMAND_LABELS = {
     "1579": "row 06, column 16, with white underlined text.",
     "157a": "row 06, column 20, with plain white text.",
     "15fb": "row 06, column 20, with white underlined text.",
-    "15fc": "row 06, column 24, with plain white text.",
+    "157c": "row 06, column 24, with plain white text.",
     "15fd": "row 06, column 24, with white underlined text.",
     "15fe": "row 06, column 28, with plain white text.",
     "157f": "row 06, column 28, with white underlined text.",
@@ -1300,7 +1300,7 @@ COMMAND_LABELS = {
     "16df": "row 07, column 28, with white underlined text.",
     "16e0": "row 08, column 00, with plain white text.",
     "1661": "row 08, column 00, with white underlined text.",
-    "16462": "row 08, column 00, with plain green text.",
+    "1662": "row 08, column 00, with plain green text.",
     "16e3": "row 08, column 00, with green underlined text.",
     "1664": "row 08, column 00, with plain blue text.",
     "16e5": "row 08, column 00, with blue underlined text.",
@@ -1326,7 +1326,7 @@ COMMAND_LABELS = {
     "1679": "row 08, column 16, with white underlined text.",
     "167a": "row 08, column 20, with plain white text.",
     "16fb": "row 08, column 20, with white underlined text.",
-    "16fc": "row 08, column 24, with plain white text.",
+    "167c": "row 08, column 24, with plain white text.",
     "16fd": "row 08, column 24, with white underlined text.",
     "16fe": "row 08, column 28, with plain white text.",
     "167f": "row 08, column 28, with white underlined text.",
@@ -1390,7 +1390,7 @@ COMMAND_LABELS = {
     "9779": "row 10, column 16, with white underlined text.",
     "977a": "row 10, column 20, with plain white text.",
     "97fb": "row 10, column 20, with white underlined text.",
-    "97fc": "row 10, column 24, with plain white text.",
+    "977c": "row 10, column 24, with plain white text.",
     "97fd": "row 10, column 24, with white underlined text.",
     "97fe": "row 10, column 28, with plain white text.",
     "977f": "row 10, column 28, with white underlined text.",
@@ -1460,7 +1460,7 @@ COMMAND_LABELS = {
     "13df": "row 12, column 28, with white underlined text.",
     "13e0": "row 13, column 00, with plain white text.",
     "1361": "row 13, column 00, with white underlined text.",
-    "13462": "row 13, column 00, with plain green text.",
+    "1362": "row 13, column 00, with plain green text.",
     "13e3": "row 13, column 00, with green underlined text.",
     "1364": "row 13, column 00, with plain blue text.",
     "13e5": "row 13, column 00, with blue underlined text.",
@@ -1486,7 +1486,7 @@ COMMAND_LABELS = {
     "1379": "row 13, column 16, with white underlined text.",
     "137a": "row 13, column 20, with plain white text.",
     "13fb": "row 13, column 20, with white underlined text.",
-    "13fc": "row 13, column 24, with plain white text.",
+    "137c": "row 13, column 24, with plain white text.",
     "13fd": "row 13, column 24, with white underlined text.",
     "13fe": "row 13, column 28, with plain white text.",
     "137f": "row 13, column 28, with white underlined text.",
@@ -1550,7 +1550,7 @@ COMMAND_LABELS = {
     "9479": "row 15, column 16, with white underlined text.",
     "947a": "row 15, column 20, with plain white text.",
     "94fb": "row 15, column 20, with white underlined text.",
-    "94fc": "row 15, column 24, with plain white text.",
+    "947c": "row 15, column 24, with plain white text.",
     "94fd": "row 15, column 24, with white underlined text.",
     "94fe": "row 15, column 28, with plain white text.",
     "947f": "row 15, column 28, with white underlined text.",
-- 
2.43.0


From 4e146c741a9bef9fb7887370257b596fbdec7c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:49 +0000
Subject: [PATCH 38/39] fix: SCCWriter shows the first caption late

Its code words were not transmitted ahead of the start time like those of
every other caption.
---
 pycaption/scc/__init__.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index d2b0184..e40a7cf 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -564,12 +564,11 @@ class SCCWriter(BaseWriter):
         for index, (code, start, end) in enumerate(codes):
             code_words = len(code) / 5 + 8
             code_time_microseconds = code_words * MICROSECONDS_PER_CODEWORD
-            code_start = start - code_time_microseconds
-            if index == 0:
-                continue
-            previous_code, previous_start, previous_end = codes[index - 1]
-            if previous_end + 3 * MICROSECONDS_PER_CODEWORD >= code_start:
-                codes[index - 1] = (previous_code, previous_start, None)
+            code_start = max(start - code_time_microseconds, 0)
+            if index > 0:
+                previous_code, previous_start, previous_end = codes[index - 1]
+                if previous_end + 3 * MICROSECONDS_PER_CODEWORD >= code_start:
+                    codes[index - 1] = (previous_code, previous_start, None)
             codes[index] = (code, code_start, end)
 
         # PASS 3:
-- 
2.43.0


From b41144ee288ce64823c64592de2686d81685607c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:51 +0000
Subject: [PATCH 39/39] fix: SCCWriter breaks rows at hyphens

Reading the rows back joined the broken word with a line break.
---
 pycaption/scc/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycaption/scc/__init__.py b/pycaption/scc/__init__.py
index e40a7cf..6fe4ee2 100644
--- a/pycaption/scc/__init__.py
+++ b/pycaption/scc/__init__.py
@@ -588,7 +588,9 @@ class SCCWriter(BaseWriter):
     def _layout_line(caption):
         caption_text = "".join(caption.get_text_nodes())
         inner_lines = caption_text.split("\n")
-        inner_lines_laid_out = [textwrap.fill(x, 32) for x in inner_lines]
+        inner_lines_laid_out = [
+            textwrap.fill(x, 32, break_on_hyphens=False) for x in inner_lines
+        ]
         return "\n".join(inner_lines_laid_out)
 
     @staticmethod
-- 
2.43.0

