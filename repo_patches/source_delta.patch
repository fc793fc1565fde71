From ee91770660385e0f7abdace805f072da6401bbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:12 +0000
Subject: [PATCH 01/42] fix: report the line number in nvdimm parse errors

---
 pykickstart/commands/nvdimm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pykickstart/commands/nvdimm.py b/pykickstart/commands/nvdimm.py
index a01652f..4cd358e 100644
--- a/pykickstart/commands/nvdimm.py
+++ b/pykickstart/commands/nvdimm.py
@@ -139,7 +139,8 @@ class F28_Nvdimm(KickstartCommand):
         nvdimm_data.action = action
 
         if nvdimm_data.namespace and nvdimm_data.blockdevs:
-            raise KickstartParseError(_("Only one of --namespace and --blockdevs device specifications can be used"))
+            raise KickstartParseError(_("Only one of --namespace and --blockdevs device specifications can be used"),
+                                      lineno=self.lineno)
 
         # Check for duplicates in the data list.
         if nvdimm_data in self.dataList():
@@ -153,14 +154,15 @@ class F28_Nvdimm(KickstartCommand):
         if action == NVDIMM_ACTION_RECONFIGURE:
             if not nvdimm_data.namespace:
                 raise KickstartParseError(_("Action %(action)s requires --namespace argument to be set")
-                                          % {"action": action})
+                                          % {"action": action}, lineno=self.lineno)
             if nvdimm_data.mode == NVDIMM_MODE_SECTOR and not nvdimm_data.sectorsize:
                 raise KickstartParseError(_("Action %(action)s with mode %(mode)s requires --sectorsize argument to be set")
-                                          % {"action": action, "mode": nvdimm_data.mode})
+                                          % {"action": action, "mode": nvdimm_data.mode},
+                                          lineno=self.lineno)
         elif action == NVDIMM_ACTION_USE:
             if not nvdimm_data.namespace and not nvdimm_data.blockdevs:
                 raise KickstartParseError(_("Action %(action)s requires --namespace or --blockdevs argument to be set")
-                                          % {"action": action})
+                                          % {"action": action}, lineno=self.lineno)
 
         return nvdimm_data
 
-- 
2.43.0


From 2a5cb7874e4961e425429a258ed5c53199d8776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:48 +0000
Subject: [PATCH 02/42] fix: report a method line as a parse error instead of a
 TypeError

---
 pykickstart/commands/method.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pykickstart/commands/method.py b/pykickstart/commands/method.py
index a863d6f..4751e54 100644
--- a/pykickstart/commands/method.py
+++ b/pykickstart/commands/method.py
@@ -19,8 +19,11 @@
 #
 from pykickstart.version import FC3, F34, versionToLongString
 from pykickstart.base import KickstartCommand, DeprecatedCommand
+from pykickstart.errors import KickstartParseError
 from pykickstart.options import KSOptionParser
 
+from pykickstart.i18n import _
+
 class FC3_Method(KickstartCommand):
     removedKeywords = KickstartCommand.removedKeywords
     removedAttrs = KickstartCommand.removedAttrs
@@ -108,6 +111,10 @@ class FC3_Method(KickstartCommand):
 
         return KSOptionParser(prog="method", description=description, version=FC3)
 
+    def parse(self, args):
+        """The method command only exists in code, it can't be used in a file."""
+        raise KickstartParseError(_("Unknown command: %s") % self.currentCmd, lineno=self.lineno)
+
 
 # These are all just for compat.  Calling into the appropriate version-specific
 # method command will deal with making sure the right options are used.
-- 
2.43.0


From da509706a8555366f6ea325d4a14e4edcba314b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:48 +0000
Subject: [PATCH 03/42] fix: keep the ports given before firewall --http

---
 pykickstart/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/options.py b/pykickstart/options.py
index c3981e5..cf30c2b 100644
--- a/pykickstart/options.py
+++ b/pykickstart/options.py
@@ -112,7 +112,7 @@ class ExtendAction(Action):
 class ExtendConstAction(Action):
     def __call__(self, parser, namespace, values, option_string=None):
         if getattr(namespace, self.dest, None) is not None:
-            setattr(namespace, self.dest, self.const + values)
+            setattr(namespace, self.dest, getattr(namespace, self.dest) + self.const)
         else:
             setattr(namespace, self.dest, self.const)
 
-- 
2.43.0


From 5607ea19b278531f12461cb60c8567cae2a13d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:38 +0000
Subject: [PATCH 04/42] fix: parse realm from the split words so comments and
 indentation do not break it

---
 pykickstart/commands/realm.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pykickstart/commands/realm.py b/pykickstart/commands/realm.py
index 53b52f6..776191d 100644
--- a/pykickstart/commands/realm.py
+++ b/pykickstart/commands/realm.py
@@ -24,7 +24,6 @@ from pykickstart.errors import KickstartParseError
 
 import getopt
 import pipes
-import shlex
 
 from pykickstart.i18n import _
 
@@ -38,15 +37,14 @@ class F19_Realm(KickstartCommand):
         self.join_args = []
         self.discover_options = []
 
-    def _parseArguments(self, string):
+    def _parseArguments(self, args):
         if self.join_realm:
             raise KickstartParseError(_("The realm command 'join' should only be specified once"), lineno=self.lineno)
-        args = shlex.split(string)
         if not args:
             raise KickstartParseError(_("Missing realm command arguments"), lineno=self.lineno)
-        command = args.pop(0)
+        command = args[0]
         if command == "join":
-            self._parseJoin(args)
+            self._parseJoin(args[1:])
         else:
             raise KickstartParseError(_("Unsupported realm '%s' command") % command, lineno=self.lineno)
 
@@ -97,7 +95,7 @@ class F19_Realm(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self._parseArguments(self.currentLine[len(self.currentCmd):].strip())
+        self._parseArguments(args)
         return self
 
     def _getParser(self):
-- 
2.43.0


From 9eb5a2b21f68adffeb05cbc364362eb6c6f04ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:09 +0000
Subject: [PATCH 05/42] fix: keep the first letters of the arguments of an
 indented auth line

---
 pykickstart/commands/authconfig.py | 2 +-
 pykickstart/commands/authselect.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykickstart/commands/authconfig.py b/pykickstart/commands/authconfig.py
index e0895a6..0400f93 100644
--- a/pykickstart/commands/authconfig.py
+++ b/pykickstart/commands/authconfig.py
@@ -43,7 +43,7 @@ class FC3_Authconfig(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self.authconfig = self.currentLine[len(self.currentCmd):].strip()
+        self.authconfig = self.currentLine.strip()[len(self.currentCmd):].strip()
         return self
 
     def _getParser(self):
diff --git a/pykickstart/commands/authselect.py b/pykickstart/commands/authselect.py
index a1caa52..372294b 100644
--- a/pykickstart/commands/authselect.py
+++ b/pykickstart/commands/authselect.py
@@ -39,7 +39,7 @@ class F28_Authselect(KickstartCommand):
         return retval
 
     def parse(self, args):
-        self.authselect = self.currentLine[len(self.currentCmd):].strip()
+        self.authselect = self.currentLine.strip()[len(self.currentCmd):].strip()
         return self
 
     def _getParser(self):
-- 
2.43.0


From df32082830bdf9491ae4087947ab01793c0b17fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:30 +0000
Subject: [PATCH 06/42] fix: build the handler for every supported version
 name, DEVEL and the long names included

---
 pykickstart/version.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pykickstart/version.py b/pykickstart/version.py
index d966637..a498858 100644
--- a/pykickstart/version.py
+++ b/pykickstart/version.py
@@ -194,12 +194,10 @@ def returnClassForVersion(version=DEVEL):
     """
     try:
         version = int(version)
-        module = "%s" % versionToString(version, skipDevel=True)
     except ValueError:
-        module = "%s" % version
         version = stringToVersion(version)
 
-    module = module.lower()
+    module = versionToString(version, skipDevel=True).lower()
 
     try:
         _path = os.path.join(os.path.dirname(__file__), "handlers/")
-- 
2.43.0


From 572c52ed2ae9d7757b461f1cfa1ad918a368df9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:48 +0000
Subject: [PATCH 07/42] fix: do not hand the end of the file to a section as a
 line of it

Sections that want all lines were handed the end-of-file marker as one more
line, after having been finalized (before F8), or in the middle of the section
(at the end of every file included from within it).
---
 pykickstart/parser.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index afabb11..77a267a 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -623,12 +623,15 @@ class KickstartParser(object):
         while True:
             try:
                 line = next(lineIter)
-                if line == "" and self._includeDepth == 0:
-                    # This section ends at the end of the file.
-                    if self.version >= version.F8:
-                        raise KickstartParseError(_("Section %s does not end with %%end.") % obj.sectionOpen, lineno=lineno)
-
-                    self._finalize(obj)
+                if line == "":
+                    # This is the end of the file.  A section continues past the
+                    # end of a file included from within it, and ends otherwise.
+                    if self._includeDepth == 0:
+                        if self.version >= version.F8:
+                            raise KickstartParseError(_("Section %s does not end with %%end.") % obj.sectionOpen, lineno=lineno)
+
+                        self._finalize(obj)
+                    break
             except StopIteration:
                 break
 
-- 
2.43.0


From 35a339552c205cb97c5a13c55f422aee9fccc056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:54 +0000
Subject: [PATCH 08/42] fix: report a line starting with an empty word as an
 unknown command

It raised an IndexError instead of a parse error.
---
 pykickstart/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 77a267a..f0878db 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -759,7 +759,7 @@ class KickstartParser(object):
                 if args[0] == "%ksappend":
                     # This is handled by the preprocess* functions, so continue.
                     continue
-                elif args[0][0] == '%':
+                elif args[0].startswith('%'):
                     # This is the beginning of a new section.  Handle its header
                     # here.
                     newSection = args[0]
-- 
2.43.0


From f3633735eec449bb78b9ba401a26614106ba8800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:54 +0000
Subject: [PATCH 09/42] fix: start every script section with an empty body

The lines of a script that was not finished, or that had only blank lines,
were put in front of the next script of the same kind.
---
 pykickstart/sections.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index 12cd900..f1dc644 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -208,6 +208,7 @@ class ScriptSection(Section):
            This method may be overridden in a subclass if necessary.
         """
         Section.handleHeader(self, lineno, args)
+        self._resetScript()
         op = self._getParser()
 
         ns = op.parse_args(args=args[1:], lineno=lineno)
-- 
2.43.0


From 7dbcda9e2bd9a6b81842a9a7e3f31106fe706eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:39 +0000
Subject: [PATCH 10/42] fix: read a file included in a section as a part of it
 from its first line on

The comments at the start of such a file were dropped from the section, and
its first line had to be one that shlex can split, whatever the section.
---
 pykickstart/parser.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index f0878db..07db8e1 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -739,6 +739,14 @@ class KickstartParser(object):
 
             lineno += 1
 
+            # A file included from within a section is a part of that section,
+            # from its first line that is not blank.
+            if self._includeDepth > 0 and self._validState(self._state) and not self._line.isspace():
+                lineIter.put(self._line)
+                lineno -= 1
+                lineno = self._readSection(lineIter, lineno)
+                continue
+
             # Eliminate blank lines, whitespace-only lines, and comments.
             if self._isBlankOrComment(self._line):
                 self._handleSpecialComments(self._line)
@@ -787,10 +795,6 @@ class KickstartParser(object):
                     self._tryFunc(lambda: self.handleCommand(lineno, args))
             elif self._state == STATE_END:
                 break
-            elif self._includeDepth > 0:
-                lineIter.put(self._line)
-                lineno -= 1
-                lineno = self._readSection(lineIter, lineno)
 
     def readKickstartFromString(self, s, reset=True):
         """Process a kickstart file, provided as the string str."""
-- 
2.43.0


From 031e54407c6d537b75bb16ea3d30119ebd15e273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:46 +0000
Subject: [PATCH 11/42] fix: write ignored sections so that they can be read
 back

Each line of the body was followed by an additional line end, two sections
were written with the header of the second on the %end line of the first, and
quoted header arguments lost their quotes.
---
 pykickstart/sections.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index f1dc644..a127ff9 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -30,6 +30,8 @@ is necessary is to create a new subclass of Section and call
 parser.registerSection with an instance of your new class.
 """
 import warnings
+from six.moves import shlex_quote    # pylint: disable=import-error
+
 from pykickstart.constants import KS_SCRIPT_PRE, KS_SCRIPT_POST, KS_SCRIPT_TRACEBACK, \
                                   KS_SCRIPT_PREINSTALL, KS_SCRIPT_ONERROR, \
                                   KS_MISSING_IGNORE, KS_MISSING_PROMPT, \
@@ -128,16 +130,19 @@ class NullSection(Section):
 
     def handleHeader(self, lineno, args):
         self._args = args
+        self._body = []
 
     def handleLine(self, line):
         self._body.append(line)
 
     def finalize(self):
-        body = "\n".join(self._body)
-        if body:
-            s = "%s\n%s\n%%end" % (" ".join(self._args), body)
-        else:
-            s = "%s\n%%end" % " ".join(self._args)
+        # The lines of the body still have their line ends.
+        body = "".join(self._body)
+        if body and not body.endswith("\n"):
+            body += "\n"
+
+        args = self._args[:1] + [shlex_quote(arg) for arg in self._args[1:]]
+        s = "%s\n%s%%end\n" % (" ".join(args), body)
 
         self.handler._null_section_strings.append(s)
 
-- 
2.43.0


From cba117f66ba1405b49c3d46800b07fed98176c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:03 +0000
Subject: [PATCH 12/42] fix: end sections in the right file when they involve
 included files

A section opened but not closed in an included file swallowed the rest of the
including file without an error, and a section closed by a file included from
within it went on receiving lines and was finalized a second time.
---
 pykickstart/parser.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 07db8e1..7cbcca9 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -664,6 +664,9 @@ class KickstartParser(object):
                         raise KickstartParseError(lineno=lineno)
 
                     self._handleInclude(args[1])
+                    if self._state == STATE_COMMANDS:
+                        # The included file has closed this section.
+                        break
                     continue
                 elif args and args[0] == "%ksappend":
                     continue
@@ -712,6 +715,7 @@ class KickstartParser(object):
             return
 
         self._includeDepth += 1
+        state = self._state
 
         try:
             self.readKickstart(f, reset=False)
@@ -722,6 +726,10 @@ class KickstartParser(object):
             if self.missingIncludeIsFatal:
                 raise
 
+            # A section opened in the include file does not go on behind it.
+            if self._state != STATE_COMMANDS:
+                self._state = state
+
         self._includeDepth -= 1
 
     def _stateMachine(self, lineIter):
@@ -790,6 +798,14 @@ class KickstartParser(object):
                     # out to STATE_COMMANDS at the end with the current line
                     # being the next section header, etc.
                     lineno = self._readSection(lineIter, lineno)
+
+                    # The end of an included file also ends a section that was
+                    # opened in that file.
+                    if self._state != STATE_COMMANDS:
+                        if self.version >= version.F8:
+                            raise KickstartParseError(_("Section %s does not end with %%end.") % obj.sectionOpen, lineno=lineno)
+
+                        self._finalize(obj)
                 else:
                     # This is a command in the command section.  Dispatch to it.
                     self._tryFunc(lambda: self.handleCommand(lineno, args))
-- 
2.43.0


From f09a0d82f005f0e3015aaf2c9f3da683ab7274e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:16 +0000
Subject: [PATCH 13/42] fix: report a file that is not UTF-8 as a kickstart
 error

load_to_str raised a UnicodeDecodeError instead of the documented
KickstartError, so no caller handled it.
---
 pykickstart/load.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/load.py b/pykickstart/load.py
index fb935f2..3aee40c 100644
--- a/pykickstart/load.py
+++ b/pykickstart/load.py
@@ -95,7 +95,7 @@ def _load_file(filename):
         else:
             with open(filename, 'r') as fh:
                 contents = fh.read()
-    except IOError as e:
+    except (IOError, UnicodeDecodeError) as e:
         raise KickstartError(_('Error opening file: %s') % str(e))
 
     return contents
-- 
2.43.0


From 7ba9f9c8dd88c58631f820c9b3be1da5d37c51aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:16 +0000
Subject: [PATCH 14/42] fix: accept any blanks between %ksappend and its file

With two blanks the empty word between them was taken as the file name, with a
tab none was found.
---
 pykickstart/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 7cbcca9..c6545dd 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -88,7 +88,7 @@ def _preprocessStateMachine(lineIter):
 
         # Try to pull down the remote file.
         try:
-            ksurl = ll.split(' ')[1]
+            ksurl = ll.split()[1]
         except:
             raise KickstartParseError(_("Illegal url for %%ksappend: %s") % ll, lineno=lineno)
 
-- 
2.43.0


From 444fc1d54e9012fffaa71f011a3b2dfc1370cf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:29 +0000
Subject: [PATCH 15/42] fix: reset a command under all its names

---
 pykickstart/base.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index c9fdd3a..ea94548 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -385,14 +385,20 @@ class KickstartHandler(KickstartObject):
 
            This method raises a KeyError if cmdName is invalid.
         """
-        if cmdName not in self.commands:
+        oldObj = self.commands.get(cmdName)
+
+        if oldObj is None:
             raise KeyError
 
-        cmdObj = self.commands[cmdName].__class__()
+        cmdObj = oldObj.__class__()
+        cmdObj.handler = self
 
         self._setCommand(cmdObj)
-        self.commands[cmdName] = cmdObj
-        self.commands[cmdName].handler = self
+
+        # Replace the existing instance under all the names it was mapped to.
+        for (key, val) in list(self.commands.items()):
+            if val is oldObj:
+                self.commands[key] = cmdObj
 
     def dispatcher(self, args, lineno):
         """Call the appropriate KickstartCommand handler for the current line
-- 
2.43.0


From 4c171a5344a15c155a0eff708eca5122b5795511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:27 +0000
Subject: [PATCH 16/42] fix: do not write out a command that was replaced by
 another

---
 pykickstart/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index ea94548..9457a8d 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -369,10 +369,18 @@ class KickstartHandler(KickstartObject):
             cmdObj = cmdClass()
             self._setCommand(cmdObj)
 
+        oldObj = self.commands.get(cmdName)
+
         # Finally, add the mapping to the commands dict.
         self.commands[cmdName] = cmdObj
         self.commands[cmdName].handler = self
 
+        # If that took the last name of another command away, do not write
+        # that other command out any more.
+        if oldObj is not None and not any(val is oldObj for val in self.commands.values()):
+            for prio in self._writeOrder:
+                self._writeOrder[prio] = [obj for obj in self._writeOrder[prio] if obj is not oldObj]
+
     def registerData(self, dataName, dataClass):
         # We also need to create attributes for the various data objects.
         setattr(self, dataName, dataClass)
-- 
2.43.0


From 3d236f782b6a6d411cf8dc0f773156c865720fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:54 +0000
Subject: [PATCH 17/42] fix: do not sort the data of the packages section when
 writing it

---
 pykickstart/parser.py | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index c6545dd..d872f3e 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -415,24 +415,16 @@ class Packages(KickstartObject):
             if self.environment:
                 pkgs += "@^%s\n" % self.environment
 
-        grps = self.groupList
-        grps.sort()
-        for grp in grps:
+        for grp in sorted(self.groupList):
             pkgs += "%s\n" % grp.__str__()
 
-        p = self.packageList
-        p.sort()
-        for pkg in p:
+        for pkg in sorted(self.packageList):
             pkgs += "%s\n" % pkg
 
-        grps = self.excludedGroupList
-        grps.sort()
-        for grp in grps:
+        for grp in sorted(self.excludedGroupList):
             pkgs += "-%s\n" % grp.__str__()
 
-        p = self.excludedList
-        p.sort()
-        for pkg in p:
+        for pkg in sorted(self.excludedList):
             pkgs += "-%s\n" % pkg
 
         return pkgs
-- 
2.43.0


From 26c98a55818c49c7a25453543221a16f31f3f128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:54 +0000
Subject: [PATCH 18/42] fix: report an exclusion without a name as a parse
 error

---
 pykickstart/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index d872f3e..e8d64f1 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -476,6 +476,8 @@ class Packages(KickstartObject):
             elif stripped[0] == "-":
                 if stripped[1:3] == "@^" and self.environment == stripped[3:]:
                     self.environment = None
+                elif stripped == "-":
+                    raise KickstartParseError(_("Name of the excluded package or group is missing"))
                 elif stripped[1] == "@":
                     excludedGroupList.append(Group(name=stripped[2:]))
                 else:
-- 
2.43.0


From b07ea8c9b01293395c1b7569c2c80c24e47aecce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:54 +0000
Subject: [PATCH 19/42] fix: let an exclusion match a group whatever the blanks
 in its name

---
 pykickstart/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index e8d64f1..6992bf1 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -479,7 +479,8 @@ class Packages(KickstartObject):
                 elif stripped == "-":
                     raise KickstartParseError(_("Name of the excluded package or group is missing"))
                 elif stripped[1] == "@":
-                    excludedGroupList.append(Group(name=stripped[2:]))
+                    # Treat blanks in the name like _processGroup does.
+                    excludedGroupList.append(Group(name=" ".join(stripped[2:].split())))
                 else:
                     newExcludedSet.add(stripped[1:])
             else:
-- 
2.43.0


From d08a1afee6a904a50129eb898ca098e6b425b407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:23 +0000
Subject: [PATCH 20/42] fix: volgroup took unknown options for physical volumes
 and lost members given before an option

---
 pykickstart/commands/volgroup.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pykickstart/commands/volgroup.py b/pykickstart/commands/volgroup.py
index bcda6e6..739810e 100644
--- a/pykickstart/commands/volgroup.py
+++ b/pykickstart/commands/volgroup.py
@@ -148,13 +148,13 @@ class FC3_VolGroup(KickstartCommand):
         (ns, extra) = self.op.parse_known_args(args=args, lineno=self.lineno)
         # because positional arguments with variable number of values
         # don't parse very well
-        if not ns.partitions:
-            if extra:
-                ns.partitions = extra
-                extra = []
-            elif ns.name:
-                ns.partitions = ns.name[1:]
-                ns.name = [ns.name[0]]
+        if any(arg for arg in extra if arg.startswith("-")):
+            mapping = {"command": "volgroup", "options": extra}
+            raise KickstartParseError(_("Unexpected arguments to %(command)s command: %(options)s") % mapping, lineno=self.lineno)
+
+        if not ns.partitions and ns.name:
+            ns.partitions = ns.name[1:] + extra
+            ns.name = [ns.name[0]]
 
         if not ns.format:
             ns.preexist = True
-- 
2.43.0


From a12912b80e85579a20794e1fdb360e791193c884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:46 +0000
Subject: [PATCH 21/42] fix: a user or group id of 0 was not written

---
 pykickstart/commands/group.py | 2 +-
 pykickstart/commands/user.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykickstart/commands/group.py b/pykickstart/commands/group.py
index fab5e74..aa8afeb 100644
--- a/pykickstart/commands/group.py
+++ b/pykickstart/commands/group.py
@@ -49,7 +49,7 @@ class F12_GroupData(BaseData):
 
         if self.name:
             retval += " --name=%s" % self.name
-        if self.gid:
+        if self.gid is not None:
             retval += " --gid=%s" % self.gid
 
         return retval + "\n"
diff --git a/pykickstart/commands/user.py b/pykickstart/commands/user.py
index e675e85..ad268ed 100644
--- a/pykickstart/commands/user.py
+++ b/pykickstart/commands/user.py
@@ -78,7 +78,7 @@ class FC6_UserData(BaseData):
             retval += " --iscrypted"
         if self.shell:
             retval += " --shell=%s" % self.shell
-        if self.uid:
+        if self.uid not in (None, ""):
             retval += " --uid=%s" % self.uid
 
         return retval
@@ -126,7 +126,7 @@ class F19_UserData(F12_UserData):
     def _getArgsAsStr(self):
         retval = F12_UserData._getArgsAsStr(self)
 
-        if self.gid:
+        if self.gid is not None:
             retval += " --gid=%d" % (self.gid,)
 
         return retval
-- 
2.43.0


From 9aa2ada9669e6d67ddd645bf75224d4f878885a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:46 +0000
Subject: [PATCH 22/42] fix: a repository cost of 0 was not written

---
 pykickstart/commands/repo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/repo.py b/pykickstart/commands/repo.py
index f050985..2449415 100644
--- a/pykickstart/commands/repo.py
+++ b/pykickstart/commands/repo.py
@@ -74,7 +74,7 @@ class F8_RepoData(FC6_RepoData):
     def _getArgsAsStr(self):
         retval = FC6_RepoData._getArgsAsStr(self)
 
-        if self.cost:
+        if self.cost is not None:
             retval += " --cost=%s" % self.cost
         if self.includepkgs:
             retval += " --includepkgs=\"%s\"" % ",".join(self.includepkgs)
-- 
2.43.0


From 2adb9e59781b7472467502f3616d44f4f19e4531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:46 +0000
Subject: [PATCH 23/42] fix: the parent of a btrfs volume was not written

---
 pykickstart/commands/btrfs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykickstart/commands/btrfs.py b/pykickstart/commands/btrfs.py
index 084f25b..afbbd7f 100644
--- a/pykickstart/commands/btrfs.py
+++ b/pykickstart/commands/btrfs.py
@@ -68,6 +68,8 @@ class F17_BTRFSData(BaseData):
             retval += " --metadata=%s" % self.metaDataLevel.lower()
         if self.subvol:
             retval += " --subvol --name=%s" % self.name
+        if self.parent:
+            retval += " --parent=%s" % self.parent
 
         return retval
 
-- 
2.43.0


From 27e32d359349ad2b7afa3830acc55660f0706f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:46 +0000
Subject: [PATCH 24/42] fix: xconfig could not be written after its deprecated
 --depth

---
 pykickstart/commands/xconfig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/xconfig.py b/pykickstart/commands/xconfig.py
index 528d4fc..df5b560 100644
--- a/pykickstart/commands/xconfig.py
+++ b/pykickstart/commands/xconfig.py
@@ -121,7 +121,7 @@ class FC6_XConfig(FC3_XConfig):
         if self.defaultdesktop:
             retval += " --defaultdesktop=%s" % self.defaultdesktop
         if self.depth != 0:
-            retval += " --depth=%d" % self.depth
+            retval += " --depth=%s" % self.depth
         if hasattr(self, "resolution") and self.resolution:
             retval += " --resolution=%s" % self.resolution
         if self.startX:
-- 
2.43.0


From 8287662291c22ef5b8186e58f1e870b084b190b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:46 +0000
Subject: [PATCH 25/42] fix: the order of the ntp servers of a timezone changed
 at random

---
 pykickstart/commands/timezone.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/timezone.py b/pykickstart/commands/timezone.py
index 6f6d412..cfda5e4 100644
--- a/pykickstart/commands/timezone.py
+++ b/pykickstart/commands/timezone.py
@@ -165,7 +165,7 @@ class F18_Timezone(FC6_Timezone):
         FC6_Timezone.parse(self, args)
 
         # NTP servers can only be listed once in F18, so weed out the duplicates now.
-        self.ntpservers = list(set(self.ntpservers))
+        self.ntpservers = list(dict.fromkeys(self.ntpservers))
 
         if self.ntpservers and self.nontp:
             msg = _("Options --nontp and --ntpservers are mutually exclusive")
-- 
2.43.0


From 1f76b6c1c65358dee805efdd9c7809cd2fef20e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:14 +0000
Subject: [PATCH 26/42] fix: named firewall ports were written as services or
 as options that no longer exist

---
 pykickstart/commands/firewall.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/pykickstart/commands/firewall.py b/pykickstart/commands/firewall.py
index 727ad21..dca10f0 100644
--- a/pykickstart/commands/firewall.py
+++ b/pykickstart/commands/firewall.py
@@ -22,6 +22,9 @@ from pykickstart.base import KickstartCommand
 from pykickstart.options import ExtendAction, ExtendConstAction, KSOptionParser, commaSplit
 
 class FC3_Firewall(KickstartCommand):
+    # Ports that are written as an option of their own.
+    _namedPorts = ["ssh:tcp", "telnet:tcp", "smtp:tcp", "http:tcp", "ftp:tcp"]
+
     removedKeywords = KickstartCommand.removedKeywords
     removedAttrs = KickstartCommand.removedAttrs
 
@@ -47,16 +50,8 @@ class FC3_Firewall(KickstartCommand):
             # port:proto (s-c-kickstart may do this).  So, filter those
             # out into their own list leaving what we expect.
             for port in self.ports:
-                if port == "ssh:tcp":
-                    extra.append(" --ssh")
-                elif port == "telnet:tcp":
-                    extra.append(" --telnet")
-                elif port == "smtp:tcp":
-                    extra.append(" --smtp")
-                elif port == "http:tcp":
-                    extra.append(" --http")
-                elif port == "ftp:tcp":
-                    extra.append(" --ftp")
+                if port in self._namedPorts:
+                    extra.append(" --%s" % port[:-len(":tcp")])
                 else:
                     filteredPorts.append(port)
 
@@ -159,6 +154,9 @@ class F10_Firewall(F9_Firewall):
     removedKeywords = F9_Firewall.removedKeywords
     removedAttrs = F9_Firewall.removedAttrs
 
+    # The options of the same name stand for services now, or are gone.
+    _namedPorts = []
+
     def __init__(self, writePriority=0, *args, **kwargs):
         F9_Firewall.__init__(self, writePriority, *args, **kwargs)
         self.services = kwargs.get("services", [])
-- 
2.43.0


From 1d9523c870db52abb2de7cf5affa8273d5d5cd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:14 +0000
Subject: [PATCH 27/42] fix: halt --eject was not written

---
 pykickstart/commands/reboot.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pykickstart/commands/reboot.py b/pykickstart/commands/reboot.py
index 75a6d91..6481007 100644
--- a/pykickstart/commands/reboot.py
+++ b/pykickstart/commands/reboot.py
@@ -88,6 +88,16 @@ class FC6_Reboot(FC3_Reboot):
 
         self.eject = kwargs.get("eject", False)
 
+    def __str__(self):
+        retval = FC3_Reboot.__str__(self)
+
+        # Halting is the default, so it is only written when there is more to say.
+        if self.action == KS_WAIT and self.eject:
+            retval += "# Halt after installation\nhalt"
+            retval += self._getArgsAsStr() + "\n"
+
+        return retval
+
     def _getArgsAsStr(self):
         retval = FC3_Reboot._getArgsAsStr(self)
 
-- 
2.43.0


From 7fd405cf70d26ccc5e6e5201e305b6a255163147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:14 +0000
Subject: [PATCH 28/42] fix: a timezone command without a timezone was not
 written for RHEL7

---
 pykickstart/commands/timezone.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pykickstart/commands/timezone.py b/pykickstart/commands/timezone.py
index cfda5e4..85de0b6 100644
--- a/pykickstart/commands/timezone.py
+++ b/pykickstart/commands/timezone.py
@@ -125,7 +125,7 @@ class F18_Timezone(FC6_Timezone):
         return retval
 
     def _getArgsAsStr(self):
-        retval = self.timezone
+        retval = self.timezone or ""
 
         if self.isUtc:
             retval += " --isUtc"
@@ -216,6 +216,16 @@ class RHEL7_Timezone(F18_Timezone):
         F18_Timezone.__init__(self, writePriority, *args, **kwargs)
         self.op = self._getParser()
 
+    def __str__(self):
+        retval = F18_Timezone.__str__(self)
+
+        # The timezone itself is optional.
+        if not self.timezone and (self.isUtc or self.nontp or self.ntpservers):
+            retval += "# System timezone\n"
+            retval += "timezone" + self._getArgsAsStr() + "\n"
+
+        return retval
+
     def _getParser(self):
         op = KSOptionParser(prog="timezone", description="""
                             This required command sets the system time zone to
-- 
2.43.0


From 2676286215c33a415e943054a237eabe2e033f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:24 +0000
Subject: [PATCH 29/42] fix: write each trusted device of the firewall command
 with its own --trust

---
 pykickstart/commands/firewall.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pykickstart/commands/firewall.py b/pykickstart/commands/firewall.py
index dca10f0..a41ebbe 100644
--- a/pykickstart/commands/firewall.py
+++ b/pykickstart/commands/firewall.py
@@ -61,10 +61,8 @@ class FC3_Firewall(KickstartCommand):
                 portstr = " --port=" + portstr
 
             extrastr = "".join(extra)
-            truststr = ",".join(self.trusts)
-
-            if truststr:
-                truststr = " --trust=" + truststr
+            # --trust takes a single device and may be given several times.
+            truststr = "".join(" --trust=%s" % trust for trust in self.trusts)
 
             # The output port list consists only of port:proto for
             # everything that we don't recognize, and special options for
-- 
2.43.0


From b514aa96c878c9b6961e10709c5f5d1073ace077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:27 +0000
Subject: [PATCH 30/42] fix: halt --eject was not written in the versions
 before F18

---
 pykickstart/commands/reboot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/reboot.py b/pykickstart/commands/reboot.py
index 6481007..b2bc035 100644
--- a/pykickstart/commands/reboot.py
+++ b/pykickstart/commands/reboot.py
@@ -92,7 +92,7 @@ class FC6_Reboot(FC3_Reboot):
         retval = FC3_Reboot.__str__(self)
 
         # Halting is the default, so it is only written when there is more to say.
-        if self.action == KS_WAIT and self.eject:
+        if self.action in (None, KS_WAIT) and self.eject:
             retval += "# Halt after installation\nhalt"
             retval += self._getArgsAsStr() + "\n"
 
-- 
2.43.0


From 3bac4e1e4724eec4f47a0c12ebd7130bfbea38c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:47 +0000
Subject: [PATCH 31/42] fix: a raid chunk size of 0 was not written

---
 pykickstart/commands/raid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykickstart/commands/raid.py b/pykickstart/commands/raid.py
index 90844e5..4ed86a0 100644
--- a/pykickstart/commands/raid.py
+++ b/pykickstart/commands/raid.py
@@ -269,7 +269,7 @@ class F25_RaidData(F23_RaidData):
     def _getArgsAsStr(self):
         retval = F23_RaidData._getArgsAsStr(self)
 
-        if self.chunk_size:
+        if self.chunk_size is not None:
             retval += " --chunksize=%d" % self.chunk_size
 
         return retval
-- 
2.43.0


From 651309915039215b85f8bed5ccb86c6845831864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 32/42] fix: script header values with blanks were written
 unquoted

---
 pykickstart/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 6992bf1..b34a86d 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -43,6 +43,7 @@ import six
 import shlex
 import sys
 import warnings
+from six.moves import shlex_quote    # pylint: disable=import-error
 
 from pykickstart import constants, version
 from pykickstart.errors import KickstartError, KickstartParseError, KickstartParseWarning
@@ -243,11 +244,11 @@ class Script(KickstartObject):
             retval += '\n%onerror'
 
         if self.interp != "/bin/sh" and self.interp:
-            retval += " --interpreter=%s" % self.interp
+            retval += " --interpreter=%s" % shlex_quote(self.interp)
         if self.type == constants.KS_SCRIPT_POST and not self.inChroot:
             retval += " --nochroot"
         if self.logfile is not None:
-            retval += " --logfile=%s" % self.logfile
+            retval += " --logfile=%s" % shlex_quote(self.logfile)
         if self.errorOnFail:
             retval += " --erroronfail"
 
-- 
2.43.0


From 8d6d612463dad6fa5ef9cacabd2c240479971a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 33/42] fix: a language list with blanks was written unquoted

---
 pykickstart/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index b34a86d..2dc6d18 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -391,7 +391,9 @@ class Packages(KickstartObject):
         if self.handleBroken == constants.KS_BROKEN_IGNORE:
             retval += " --ignorebroken"
         if self.instLangs is not None:
-            retval += " --inst-langs=%s" % self.instLangs
+            # an empty value needs no quotes
+            langs = shlex_quote(self.instLangs) if self.instLangs else ""
+            retval += " --inst-langs=%s" % langs
         if self.multiLib:
             retval += " --multilib"
         if self.excludeWeakdeps:
-- 
2.43.0


From 80e3dccc36b09b0393ead39ec8297145871dd19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:16 +0000
Subject: [PATCH 34/42] fix: a group selected again after its exclusion was
 still written as excluded

---
 pykickstart/parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index 2dc6d18..c18969f 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -448,6 +448,10 @@ class Packages(KickstartObject):
         # now.
         grp = " ".join(extra)
 
+        # The last word on a group counts, so selecting it takes back an
+        # earlier exclusion.
+        self._dropExcludedGroup(grp)
+
         if grp in [g.name for g in self.groupList]:
             return
 
@@ -458,6 +462,9 @@ class Packages(KickstartObject):
         else:
             self.groupList.append(Group(name=grp, include=constants.GROUP_DEFAULT))
 
+    def _dropExcludedGroup(self, name):
+        self.excludedGroupList = [g for g in self.excludedGroupList if g.name != name]
+
     def add(self, pkgList):
         """Given a list of lines from the input file, strip off any leading
            symbols and add the result to the appropriate list.
@@ -474,6 +481,7 @@ class Packages(KickstartObject):
 
             if stripped[0:2] == "@^":
                 self.environment = stripped[2:]
+                self._dropExcludedGroup(" ".join(stripped[1:].split()))
             elif stripped[0] == "@":
                 self._processGroup(stripped[1:])
             elif stripped[0] == "-":
-- 
2.43.0


From cda53bb37280f77b5f882cc9cf1938fb757542e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 35/42] fix: a parser of another version changed how existing
 scripts and packages are written

---
 pykickstart/base.py     | 1 +
 pykickstart/sections.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/pykickstart/base.py b/pykickstart/base.py
index 9457a8d..ea3a372 100644
--- a/pykickstart/base.py
+++ b/pykickstart/base.py
@@ -497,6 +497,7 @@ class BaseHandler(KickstartHandler):
         # everything else I can think of.
         self.scripts = []
         self.packages = Packages()
+        self.packages._ver = self.version
         self.platform = ""
 
         # Any sections that we do not understand but want to prevent causing errors
diff --git a/pykickstart/sections.py b/pykickstart/sections.py
index a127ff9..826242a 100644
--- a/pykickstart/sections.py
+++ b/pykickstart/sections.py
@@ -204,6 +204,8 @@ class ScriptSection(Section):
 
         if self.dataObj is not None:
             s = self.dataObj(self._script["body"], **kwargs)
+            # Scripts of other handlers may be of another version.
+            s._ver = self.version
             self._resetScript()
             self.handler.scripts.append(s)
 
-- 
2.43.0


From 61140c581e4a03bcd24f786c6cd80f967584b295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:13 +0000
Subject: [PATCH 36/42] fix: a rejected timezone line left a list that could
 not be written

---
 pykickstart/commands/timezone.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pykickstart/commands/timezone.py b/pykickstart/commands/timezone.py
index 85de0b6..fd72d41 100644
--- a/pykickstart/commands/timezone.py
+++ b/pykickstart/commands/timezone.py
@@ -74,13 +74,13 @@ class FC3_Timezone(KickstartCommand):
     # by a new implementation not calling this method.
     def parse(self, args):
         (ns, extra) = self.op.parse_known_args(args=args, lineno=self.lineno)
-        self.set_to_self(ns)
         assert len(ns.timezone) == 1
 
         if extra:
             mapping = {"command": "timezone", "options": extra}
             raise KickstartParseError(_("Unexpected arguments to %(command)s command: %(options)s") % mapping, lineno=self.lineno)
 
+        self.set_to_self(ns)
         self.timezone = ns.timezone[0]
         return self
 
@@ -269,7 +269,6 @@ class RHEL7_Timezone(F18_Timezone):
 
     def parse(self, args):
         ns = self.op.parse_args(args=args, lineno=self.lineno)
-        self.set_to_self(ns)
 
         # just "timezone" without any arguments and timezone specification doesn't really make sense,
         # so throw an error when we see it (it might even be an indication of an incorrect machine generated kickstart)
@@ -284,12 +283,14 @@ class RHEL7_Timezone(F18_Timezone):
         #    which throws an exception if no timezone specification is provided
         # - we implement the relevant functionality of the ancestor methods here
 
-        if len(ns.timezone) == 1:
-            self.timezone = ns.timezone[0]
-        elif len(ns.timezone) > 1:
+        if len(ns.timezone) > 1:
             error_message = _("One or zero arguments are expected for the %s command") % "timezone"
             raise KickstartParseError(error_message, lineno=self.lineno)
 
+        self.set_to_self(ns)
+        if len(ns.timezone) == 1:
+            self.timezone = ns.timezone[0]
+
         if self.ntpservers and self.nontp:
             msg = _("Options --nontp and --ntpservers are mutually exclusive")
             raise KickstartParseError(msg, lineno=self.lineno)
@@ -370,7 +371,6 @@ class F25_Timezone(F23_Timezone):
 
     def parse(self, args):
         ns = self.op.parse_args(args=args, lineno=self.lineno)
-        self.set_to_self(ns)
 
         # just "timezone" without any arguments and timezone specification doesn't really make sense,
         # so throw an error when we see it (it might even be an indication of an incorrect machine generated kickstart)
@@ -385,12 +385,14 @@ class F25_Timezone(F23_Timezone):
         #    which throws an exception if no timezone specification is provided
         # - we implement the relevant functionality of the ancestor methods here
 
-        if len(ns.timezone) == 1:
-            self.timezone = ns.timezone[0]
-        elif len(ns.timezone) > 1:
+        if len(ns.timezone) > 1:
             error_message = _("One or zero arguments are expected for the %s command") % "timezone"
             raise KickstartParseError(error_message, lineno=self.lineno)
 
+        self.set_to_self(ns)
+        if len(ns.timezone) == 1:
+            self.timezone = ns.timezone[0]
+
         if self.ntpservers and self.nontp:
             msg = _("Options --nontp and --ntpservers are mutually exclusive")
             raise KickstartParseError(msg, lineno=self.lineno)
-- 
2.43.0


From 08d1ebbab37b5f014ba2398775d4b4a1262cbb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:30 +0000
Subject: [PATCH 37/42] fix: ksvalidator exited with status zero after 256
 errors

---
 tools/ksvalidator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/ksvalidator.py b/tools/ksvalidator.py
index 8fe1d9f..2c9481a 100755
--- a/tools/ksvalidator.py
+++ b/tools/ksvalidator.py
@@ -104,7 +104,8 @@ def main(argv):
     try:
         processedFile = preprocessKickstart(f)
         ksparser.readKickstart(processedFile)
-        return (cleanup(destdir, processedFile, exitval=ksparser.errorsCount), [])
+        # an exit status is a single byte, so 256 errors would read as none
+        return (cleanup(destdir, processedFile, exitval=min(ksparser.errorsCount, 255)), [])
     except KickstartDeprecationWarning as err:
         return (cleanup(destdir, processedFile),
                 [_("File uses a deprecated option or command.\n%s") % err])
-- 
2.43.0


From 8452ff5a686eaf44d37ceecf842e6c40cf5b3668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:30 +0000
Subject: [PATCH 38/42] fix: ksvalidator failed on an empty kickstart

---
 tools/ksvalidator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/ksvalidator.py b/tools/ksvalidator.py
index 2c9481a..b71e984 100755
--- a/tools/ksvalidator.py
+++ b/tools/ksvalidator.py
@@ -103,7 +103,9 @@ def main(argv):
 
     try:
         processedFile = preprocessKickstart(f)
-        ksparser.readKickstart(processedFile)
+        # there is no file and nothing to read if the input is empty
+        if processedFile is not None:
+            ksparser.readKickstart(processedFile)
         # an exit status is a single byte, so 256 errors would read as none
         return (cleanup(destdir, processedFile, exitval=min(ksparser.errorsCount, 255)), [])
     except KickstartDeprecationWarning as err:
-- 
2.43.0


From 5227375e0f652962ac44668b5965230762e2da0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:30 +0000
Subject: [PATCH 39/42] fix: ksvalidator left its directory behind after an
 unexpected loading failure

---
 tools/ksvalidator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/ksvalidator.py b/tools/ksvalidator.py
index b71e984..48d9e1d 100755
--- a/tools/ksvalidator.py
+++ b/tools/ksvalidator.py
@@ -86,6 +86,9 @@ def main(argv):
     except KickstartError as e:
         return (cleanup(destdir),
                 [_("Error reading %(filename)s:\n%(version)s") % {"filename": opts.ksfile, "version": e}])
+    except Exception:                                           # pylint: disable=broad-except
+        cleanup(destdir)
+        raise
 
     try:
         handler = makeVersion(opts.version)
-- 
2.43.0


From 10d00e4078ccf812ad59fbacd4897281a4a916b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:30 +0000
Subject: [PATCH 40/42] fix: preprocessing left its temporary file behind when
 it could not be written

---
 pykickstart/parser.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pykickstart/parser.py b/pykickstart/parser.py
index c18969f..fe3101b 100644
--- a/pykickstart/parser.py
+++ b/pykickstart/parser.py
@@ -139,8 +139,13 @@ def preprocessFromString(s):
         import tempfile
         (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
 
-        os.write(outF, s)
-        os.close(outF)
+        try:
+            os.write(outF, s)
+        except OSError:
+            os.unlink(outName)
+            raise
+        finally:
+            os.close(outF)
         return outName
 
     return None
@@ -156,8 +161,13 @@ def preprocessKickstart(f):
         import tempfile
         (outF, outName) = tempfile.mkstemp(suffix="-ks.cfg")
 
-        os.write(outF, s)
-        os.close(outF)
+        try:
+            os.write(outF, s)
+        except OSError:
+            os.unlink(outName)
+            raise
+        finally:
+            os.close(outF)
         return outName
 
     return None
-- 
2.43.0


From 6687bfe8f4963f3bfb0e95e7582438d7ed21d31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:30 +0000
Subject: [PATCH 41/42] fix: ksverdiff did not list options that are further
 names of an option

---
 tools/ksverdiff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/ksverdiff.py b/tools/ksverdiff.py
index 5f59a71..e59f2c4 100755
--- a/tools/ksverdiff.py
+++ b/tools/ksverdiff.py
@@ -33,7 +33,7 @@ def getCommandSet(handler):
     return set(handler.commands.keys())
 
 def getOptSet(lst):
-    return set(map(lambda o: o.option_strings[0] if o.option_strings else '', lst))
+    return set(name for o in lst for name in (o.option_strings or ['']))
 
 def printList(lst):
     print(' '.join(lst))
-- 
2.43.0


From 28e16c5b295e01ebcdbfc1191d017a144d33d06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:30 +0000
Subject: [PATCH 42/42] fix: ksverdiff listed removed commands as added and
 removed ones again

---
 tools/ksverdiff.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tools/ksverdiff.py b/tools/ksverdiff.py
index e59f2c4..e7dedaf 100755
--- a/tools/ksverdiff.py
+++ b/tools/ksverdiff.py
@@ -32,6 +32,10 @@ from pykickstart.version import makeVersion, versionMap
 def getCommandSet(handler):
     return set(handler.commands.keys())
 
+def supported(handler):
+    # a removed command may still be there to report the error
+    return set(cmd for cmd, obj in handler.commands.items() if not isinstance(obj, RemovedCommand))
+
 def getOptSet(lst):
     return set(name for o in lst for name in (o.option_strings or ['']))
 
@@ -71,18 +75,15 @@ def main(argv=None):
     bothSet = fromCmdSet & toCmdSet
 
     print(_("The following commands were removed in %s:") % opts.t)
-    removed = [cmd for cmd in bothSet if
-               isinstance(toHandler.commands[cmd], RemovedCommand) and
-               not isinstance(fromHandler.commands[cmd], RemovedCommand)]
-    printList(sorted(removed + list(fromCmdSet - toCmdSet)))
+    printList(sorted(supported(fromHandler) - supported(toHandler)))
 
     print(_("The following commands were deprecated in %s:") % opts.t)
-    printList(sorted([cmd for cmd in bothSet if
+    printList(sorted([cmd for cmd in toCmdSet if
                       isinstance(toHandler.commands[cmd], DeprecatedCommand) and
                       not isinstance(toHandler.commands[cmd], RemovedCommand)]))
 
     print(_("The following commands were added in %s:") % opts.t)
-    printList(sorted(toCmdSet - fromCmdSet))
+    printList(sorted(supported(toHandler) - supported(fromHandler)))
 
     for cmd in sorted(bothSet):
         newOptList = []
-- 
2.43.0

