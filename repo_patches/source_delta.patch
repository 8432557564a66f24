From eb317968e8dd063ba278d8fb6dd92c467ecf0958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 1/6] fix: reject files that are too short to contain a full
 header

get_header() documents a ValueError when there are not enough bytes, but a file
cut after the struct lengths was accepted with the rest of the header zeroed.
---
 atoparser/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index 5b6f47c..8f30000 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -145,7 +145,8 @@ def get_header(raw_file: io.BytesIO, check_compatibility: bool = True) -> Header
     # Read the header directly into the struct, there is no padding to consume or add.
     # Use default Header as the baseline in order to check the version. It can be transferred without re-reading.
     header = _HEADER_BY_VERSION[_DEFAULT_VERSION]()
-    raw_file.readinto(header)
+    if raw_file.readinto(header) != ctypes.sizeof(header):
+        raise ValueError("File does not contain enough bytes to read the raw atop header.")
 
     if header.magic != MAGIC:
         msg = f"File does not contain raw atop output (wrong magic number): {hex(header.magic)}"
-- 
2.43.0


From abcc4c1503c27dec862044cd328cd76ba49e273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 2/6] fix: handle versions without their own structs by the
 fallback layout

A header of a version that has no structs of its own (e.g. 2.2, 1.27, 3.0) falls
back to the latest structs, but the length fields and sample layout were still
selected by version number, ending in AttributeError instead of the documented
ValueError, or in misread samples when the lengths do match.
---
 atoparser/structs/shared.py | 4 ++--
 atoparser/utils.py          | 7 ++-----
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/atoparser/structs/shared.py b/atoparser/structs/shared.py
index 91dda02..9658b08 100644
--- a/atoparser/structs/shared.py
+++ b/atoparser/structs/shared.py
@@ -49,11 +49,11 @@ class HeaderMixin:
             ("Record", self.rawreclen, ctypes.sizeof(self.Record)),
             ("SStat", self.sstatlen, ctypes.sizeof(self.SStat)),
         ]
-        if self.major_version >= 2 and self.minor_version >= 3:
+        if hasattr(self, "tstatlen"):
             sizes.append(("TStat", self.tstatlen, ctypes.sizeof(self.TStat)))
         else:
             sizes.append(("PStat", self.pstatlen, ctypes.sizeof(self.TStat)))
-        if self.major_version >= 2 and self.minor_version >= 11:
+        if self.CStat is not None:
             sizes.append(("CStat", self.cstatlen, ctypes.sizeof(self.CStat)))
         if any(size[1] != size[2] for size in sizes):
             raise ValueError(
diff --git a/atoparser/utils.py b/atoparser/utils.py
index 8f30000..2727cde 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -101,9 +101,6 @@ def generate_statistics(
         header = get_header(raw_file)
 
     try:
-        header_version = header.semantic_version
-        major, minor = header_version.split(".")[:2]
-        major, minor = int(major), int(minor)
         for _ in range(max_samples):
             # Read the repeating structured information until the end of the file.
             # Atop log files consist of the following after the header, repeated until the end:
@@ -117,7 +114,7 @@ def generate_statistics(
                 break
             sstat = get_sstat(raw_file, header, record)
             tstats = get_tstat(raw_file, header, record)
-            if major >= 2 and minor >= 11:
+            if header.CStat is not None:
                 cgroups = get_cstat(raw_file, header, record)
             else:
                 cgroups = []
@@ -235,7 +232,7 @@ def get_tstat(
     decompressed = zlib.decompress(buffer)
 
     record_count = record.nlist if isinstance(record, atop_1_26.Record) else record.ndeviat
-    tstatlen = header.tstatlen if header.major_version >= 2 and header.minor_version >= 3 else header.pstatlen
+    tstatlen = header.tstatlen if hasattr(header, "tstatlen") else header.pstatlen
     tstats = []
     for index in range(record_count):
         # Reconstruct one TStat struct for every possible byte chunk, incrementing the offset each pass. For example:
-- 
2.43.0


From 6018d986a91782ce138b45ac0476559c1f61cc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 3/6] fix: read 2.11+ samples that carry no cgroup data

A record with ccomplen and icomplen of 0 (no cgroup v2 on the host) raised
zlib.error, making every sample of the log unreadable.
---
 atoparser/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index 2727cde..0f9134d 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -263,10 +263,11 @@ def get_cstat(
     """
     # Read the requested length instead of the length of the struct.
     # The data is compressed and must be decompressed before it will fill the final list of structs.
+    # Samples taken without cgroup v2 support do not contain any compressed cgroup data to read.
     buffer_cstats = raw_file.read(record.ccomplen)
-    decompressed_cstats = zlib.decompress(buffer_cstats)
+    decompressed_cstats = zlib.decompress(buffer_cstats) if record.ccomplen else b""
     buffer_pidlist = raw_file.read(record.icomplen)
-    decompressed_pidlist = zlib.decompress(buffer_pidlist)
+    decompressed_pidlist = zlib.decompress(buffer_pidlist) if record.icomplen else b""
 
     cgroups = []
     cstat_start = 0
-- 
2.43.0


From 83f4cb01b3319cf85ddf5b5f141b08bd64c17d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 4/6] fix: tolerate undecodable bytes in parseable names and
 command lines

Atop truncates names and command lines by bytes, which can split a multibyte
character. struct_to_dict() already ignores these, parseables raised.
---
 atoparser/parsers/atop_1_26.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/atoparser/parsers/atop_1_26.py b/atoparser/parsers/atop_1_26.py
index ef8f33b..c062050 100644
--- a/atoparser/parsers/atop_1_26.py
+++ b/atoparser/parsers/atop_1_26.py
@@ -96,7 +96,7 @@ def parse_DSK(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": disk.name.decode(),
+            "name": disk.name.decode(errors="ignore"),
             "io_ms": disk.io_ms,
             "reads": disk.nread,
             "read_sectors": disk.nrsect,
@@ -120,7 +120,7 @@ def parse_LVM(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": lvm.name.decode(),
+            "name": lvm.name.decode(errors="ignore"),
             "io_ms": lvm.io_ms,
             "reads": lvm.nread,
             "read_sectors": lvm.nrsect,
@@ -144,7 +144,7 @@ def parse_MDD(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": mdd.name.decode(),
+            "name": mdd.name.decode(errors="ignore"),
             "io_ms": mdd.io_ms,
             "reads": mdd.nread,
             "read_sectors": mdd.nrsect,
@@ -189,7 +189,7 @@ def parse_NETL(
         values = {
             "timestamp": record.curtime,
             "interval": record.interval,
-            "name": interface.name.decode(),
+            "name": interface.name.decode(errors="ignore"),
             "pkt_received": interface.rpack,
             "byte_received": interface.rbyte,
             "pkt_transmitted": interface.spack,
@@ -254,8 +254,8 @@ def parse_PRC(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "ticks": header.hertz,
             "user_consumption": stat.cpu.utime,
             "system_consumption": stat.cpu.stime,
@@ -281,8 +281,8 @@ def parse_PRD(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "kernel_patch": "y" if header.supportflags & atop_1_26.PATCHSTAT else "n",
             "standard_io": "y" if header.supportflags & atop_1_26.IOSTAT else "n",
             "reads": stat.dsk.rio,
@@ -306,15 +306,15 @@ def parse_PRG(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "real_uid": stat.gen.ruid,
             "real_gid": stat.gen.rgid,
             "tgid": stat.gen.pid,  # This is a duplicate of pid per atop documentation.
             "threads": stat.gen.nthr,
             "exit_code": stat.gen.excode,
             "start_time": stat.gen.btime,
-            "cmd": stat.gen.cmdline.decode(),
+            "cmd": stat.gen.cmdline.decode(errors="ignore"),
             "ppid": stat.gen.ppid,
             "running_threads": stat.gen.nthrrun,
             "sleeping_threads": stat.gen.nthrslpi,
@@ -342,8 +342,8 @@ def parse_PRM(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "page": header.pagesize,
             "vsize": stat.mem.vmem * 1024,
             "rsize": stat.mem.rmem * 1024,
@@ -368,8 +368,8 @@ def parse_PRN(
             "timestamp": record.curtime,
             "interval": record.interval,
             "pid": stat.gen.pid,
-            "name": stat.gen.name.decode(),
-            "state": stat.gen.state.decode(),
+            "name": stat.gen.name.decode(errors="ignore"),
+            "state": stat.gen.state.decode(errors="ignore"),
             "kernel_patch": "y" if header.supportflags & atop_1_26.PATCHSTAT else "n",
             "tcp_transmitted": stat.net.tcpsnd,
             "tcp_transmitted_size": stat.net.tcpssz,
-- 
2.43.0


From 9dca2deddd92b1626bf38c62943eea2d24b3cdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 5/6] fix: only use the name of the file to detect gzip logs

An uncompressed log below a directory with ".gz" in its name was opened as gzip.
---
 atoparser/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atoparser/reader.py b/atoparser/reader.py
index 80c3e0d..b4d04af 100755
--- a/atoparser/reader.py
+++ b/atoparser/reader.py
@@ -5,6 +5,7 @@
 import argparse
 import gzip
 import json
+import os
 
 import atoparser
 from atoparser.parsers import atop_1_26
@@ -76,7 +77,7 @@ def parse_file(  # pylint: disable=too-many-locals
         show_cstats: Wheter to include CGroup/CStats in output
     """
     samples = []
-    opener = open if ".gz" not in file else gzip.open
+    opener = open if ".gz" not in os.path.basename(file) else gzip.open
     with opener(file, "rb") as raw_file:
         header = atoparser.get_header(raw_file)
         if parseables and header.semantic_version not in PARSEABLE_MAP:
-- 
2.43.0


From b84b61ab72c4d94145383c12bd808e22ab9363bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:52 +0000
Subject: [PATCH 6/6] fix: treat truncated gzip logs like other truncated logs

A gzip file that ends early raises EOFError rather than zlib.error, which was not
squashed by raise_on_truncation=False, losing the readable samples in the reader.
---
 atoparser/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atoparser/utils.py b/atoparser/utils.py
index 0f9134d..35bbd56 100644
--- a/atoparser/utils.py
+++ b/atoparser/utils.py
@@ -119,7 +119,7 @@ def generate_statistics(
             else:
                 cgroups = []
             yield record, sstat, tstats, cgroups
-    except zlib.error:
+    except (zlib.error, EOFError):
         # End of readable data reached. This is common during software restarts.
         # All errors after the header are squashable errors, since that means the file is valid, but was not closed.
         if raise_on_truncation:
-- 
2.43.0

