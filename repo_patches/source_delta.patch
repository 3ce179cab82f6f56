From df8ca2a6cba82488c5e030e43df2b8720fc2673b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:18 +0000
Subject: [PATCH 01/36] fix: keep the recorded order of events with equal
 timestamps in from_csv

---
 pipit/trace.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index fcc9f75..a2c78da 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -91,7 +91,12 @@ class Trace:
 
         # sort the dataframe by Timestamp
         events_dataframe.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         return Trace(None, events_dataframe)
-- 
2.43.0


From 25ae31e9a895bc3fe4db702d288835d9c4b783d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:18 +0000
Subject: [PATCH 02/36] fix: keep the recorded order of events with equal
 timestamps in the OTF2 reader

---
 pipit/readers/otf2_reader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index b685c3a..610a2dc 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -472,7 +472,12 @@ class OTF2Reader:
 
         # ensures the DataFrame is in order of increasing timestamp
         events_dataframe.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         # convert these to ints
-- 
2.43.0


From 88269a413420ff46abf8fec2cfbd8c56466673fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:18 +0000
Subject: [PATCH 03/36] fix: keep the recorded order of events with equal
 timestamps in the Projections reader

---
 pipit/readers/projections_reader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 0a2044c..dbaf5d5 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -301,7 +301,12 @@ class ProjectionsReader:
         # Concatenate the dataframes list into dataframe containing entire trace
         trace_df = pd.concat(dataframes_list, ignore_index=True)
         trace_df.sort_values(
-            by="Timestamp (ns)", axis=0, ascending=True, inplace=True, ignore_index=True
+            by="Timestamp (ns)",
+            axis=0,
+            ascending=True,
+            inplace=True,
+            ignore_index=True,
+            kind="stable",
         )
 
         # categorical for memory savings
-- 
2.43.0


From cf556ac5d3ddaaea692226032ec576905b9baf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:32 +0000
Subject: [PATCH 04/36] fix: load_imbalance uses the metric's values rather
 than a DataFrame

---
 pipit/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index a2c78da..5ae9555 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -588,7 +588,7 @@ class Trace:
 
         functions = set(self.events.loc[self.events["Event Type"] == "Enter"]["Name"])
         for function in functions:
-            curr_series = flat_profile.loc[function]
+            curr_series = flat_profile[metric].loc[function]
 
             top_n = curr_series.sort_values(ascending=False).iloc[0:num_display]
 
-- 
2.43.0


From 47924f08e3a5dba97684d1a9c031e8ef173fa788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:32 +0000
Subject: [PATCH 05/36] fix: idle_time no longer changes its default argument
 or the caller's list

---
 pipit/trace.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 5ae9555..a0538c7 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -623,7 +623,11 @@ class Trace:
             self.calc_inc_metrics()
 
         if mpi_events:
-            idle_functions += ["MPI_Wait", "MPI_Waitall", "MPI_Recv"]
+            idle_functions = list(idle_functions) + [
+                "MPI_Wait",
+                "MPI_Waitall",
+                "MPI_Recv",
+            ]
         # filter the dataframe to include only 'Enter' events within the specified
         # process with the specified function names
         df = self.events
-- 
2.43.0


From 9cfb9471bee3470870e74731d5b4ac25201b4a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:32 +0000
Subject: [PATCH 06/36] fix: a leave ends the call it is paired with, also when
 calls overlap

---
 pipit/trace.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index a0538c7..74a052b 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -252,6 +252,7 @@ class Trace:
                 df_indices, event_types = list(filtered_df.index), list(
                     filtered_df["Event Type"]
                 )
+                matching_events = list(filtered_df["_matching_event"])
 
                 # loop through the events of the filtered dataframe
                 for i in range(len(filtered_df)):
@@ -281,7 +282,7 @@ class Trace:
                         # Note: parent, and children for a leave row
                         # can be found using the matching index that
                         # corresponds to the enter row
-                        stack.pop()
+                        stack.remove(matching_events[i])
 
                         curr_depth -= 1
 
-- 
2.43.0


From 0f4d9fe1ef9e01b96098d4c18f9cd86d96d6895f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:49 +0000
Subject: [PATCH 07/36] fix: CCT nodes are identified by parent and name, not
 by a joined string

---
 pipit/util/cct.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pipit/util/cct.py b/pipit/util/cct.py
index b499227..b3f8b88 100644
--- a/pipit/util/cct.py
+++ b/pipit/util/cct.py
@@ -45,7 +45,7 @@ def create_cct(events):
         else:
             filtered_df = enter_leave_df.loc[(enter_leave_df["Process"] == curr_loc)]
 
-        curr_depth, callpath = 0, ""
+        curr_depth = 0
 
         """
         Iterating over lists instead of
@@ -68,19 +68,24 @@ def create_cct(events):
 
             # encounter a new function through its entry point.
             if evt_type == "Enter":
-                # add the function to the stack and get the call path
+                # add the function to the stack
                 functions_stack.append(function_name)
-                callpath = "->".join(functions_stack)
 
                 # get the parent node of the function if it exists
                 parent_node = None if curr_depth == 0 else nodes_stack[-1]
 
+                # the parent's node and the function's name identify the call path
+                callpath = (
+                    None if parent_node is None else parent_node._pipit_nid,
+                    function_name,
+                )
+
                 if callpath in callpath_to_node:
                     # don't create new node if callpath is in map
                     curr_node = callpath_to_node[callpath]
                 else:
                     # create new node if callpath isn't in map
-                    curr_node = Node(node_id, parent_node, curr_depth)
+                    curr_node = Node(node_id, parent_node)
                     callpath_to_node[callpath] = curr_node
                     node_id += 1
 
-- 
2.43.0


From 6041f5d24de9e862df00d2f186fbf0a8d7b5dec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 08/36] fix: flat_profile accepts a list of columns to group by

---
 pipit/trace.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 74a052b..dfb0fc7 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -531,6 +531,9 @@ class Trace:
         """
 
         metrics = [metrics] if not isinstance(metrics, list) else metrics
+        groupby_columns = (
+            groupby_column if isinstance(groupby_column, list) else [groupby_column]
+        )
 
         # calculate inclusive time if needed
         if "time.inc" in metrics:
@@ -546,15 +549,15 @@ class Trace:
         if per_process:
             return (
                 self.events.loc[self.events["Event Type"] == "Enter"]
-                .groupby([groupby_column, "Process"], observed=True)[metrics]
+                .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                 .sum()
             )
         else:
             return (
                 self.events.loc[self.events["Event Type"] == "Enter"]
-                .groupby([groupby_column, "Process"], observed=True)[metrics]
+                .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                 .sum()
-                .groupby(groupby_column)
+                .groupby(groupby_columns)
                 .mean()
             )
 
-- 
2.43.0


From d3d215810dbb4d968b93f027e511d1ecd430a18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 09/36] fix: read OTF2 metric member ids with more than one
 digit

---
 pipit/readers/otf2_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 610a2dc..7eebd36 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -213,7 +213,9 @@ class OTF2Reader:
 
             # ids of metric members
             metric_ids = list(
-                map(lambda metric_member: int(metric_member[-1]), metric_members)
+                map(
+                    lambda metric_member: int(metric_member.split()[-1]), metric_members
+                )
             )
 
             # names of metrics
-- 
2.43.0


From 10e01c6487e8352b15c4d93073da4e711b05850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 10/36] fix: record the end of a Projections user event pair

---
 pipit/readers/projections_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index dbaf5d5..9ad39bc 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -770,7 +770,7 @@ class ProjectionsReader:
                     }
 
                     _add_to_trace_dict(
-                        "User Event Pair", "Leave", time, pe_num, details
+                        data, "User Event Pair", "Leave", time, pe_num, details
                     )
 
                 # User stat (in code)
-- 
2.43.0


From 5e53fa6c182ff74664a5236defc5d30a8366e4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 11/36] fix: read the times and event ids of Projections user
 notes as numbers

---
 pipit/readers/projections_reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 9ad39bc..4330d26 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -421,7 +421,7 @@ class ProjectionsReader:
                     )
 
                 elif int(line_arr[0]) == ProjectionsConstants.USER_SUPPLIED_NOTE:
-                    time = line_arr[1] * 1000
+                    time = int(line_arr[1]) * 1000
                     note = ""
                     for i in range(2, len(line_arr)):
                         note = note + line_arr[i] + " "
@@ -437,9 +437,9 @@ class ProjectionsReader:
                     int(line_arr[0])
                     == ProjectionsConstants.USER_SUPPLIED_BRACKETED_NOTE
                 ):
-                    time = line_arr[1] * 1000
-                    end_time = line_arr[2] * 1000
-                    user_event_id = line_arr[3]
+                    time = int(line_arr[1]) * 1000
+                    end_time = int(line_arr[2]) * 1000
+                    user_event_id = int(line_arr[3])
                     note = ""
                     for i in range(4, len(line_arr)):
                         note = note + line_arr[i] + " "
-- 
2.43.0


From 814841431de5a39dbfcaeec4a1fb3d2c9c7ace5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 12/36] fix: record the details of a Projections multicast

---
 pipit/readers/projections_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 4330d26..8ec720c 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -518,7 +518,7 @@ class ProjectionsReader:
                     send_time = int(line_arr[7]) * 1000
                     num_procs = int(line_arr[8])
                     dest_procs = []
-                    for i in (0, num_procs):
+                    for i in range(num_procs):
                         dest_procs.append(int(line_arr[9 + i]))
 
                     details = {
@@ -537,7 +537,7 @@ class ProjectionsReader:
                         "Instant",
                         time,
                         pe_num,
-                        "To " + str(num_procs) + "processors",
+                        details,
                     )
 
                 # Processing of chare (i.e. execution) ?
-- 
2.43.0


From 9c4641976c50bc3ec7350058ec9f4cd1e349ad9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 13/36] fix: the Computation leave added to a Projections log
 is already in ns

---
 pipit/readers/projections_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index 8ec720c..ce87f06 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -796,7 +796,7 @@ class ProjectionsReader:
 
             # Making sure that the log file ends with END_COMPUTATION
             if len(data["Name"]) > 0 and data["Name"][-1] != "Computation":
-                time = data["Timestamp (ns)"][-1] * 1000
+                time = data["Timestamp (ns)"][-1]
                 _add_to_trace_dict(data, "Computation", "Leave", time, pe_num, None)
 
             log_file.close()
-- 
2.43.0


From 5774befa5b33c795f82096f75c2eeb1f88d9b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 14/36] fix: read all four bytes of an HPCToolkit source line

---
 pipit/readers/hpctoolkit_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index a6cda33..95adc1e 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -708,7 +708,7 @@ class MetaReader:
                     flex[0:8], byteorder=self.byte_order, signed=self.signed
                 )
                 sub_flex_2 = int.from_bytes(
-                    flex[8:10], byteorder=self.byte_order, signed=self.signed
+                    flex[8:12], byteorder=self.byte_order, signed=self.signed
                 )
                 flex = flex[16:]
                 source_file_index = self.__get_source_file_index(sub_flex_1)
-- 
2.43.0


From c80b8cab71ec56eb1d8e832189cbca3a101394f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 15/36] fix: HPCToolkit string pointers count bytes, and
 strings are UTF-8

---
 pipit/readers/hpctoolkit_reader.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 95adc1e..d67f952 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -276,7 +276,7 @@ class MetaReader:
         self.common_string_index_map: dict = {}
         for i in range(len(self.common_strings)):
             self.common_string_index_map[pointer_index] = i
-            pointer_index += len(self.common_strings[i]) + 1
+            pointer_index += len(self.common_strings[i].encode("UTF-8")) + 1
 
     def __get_load_modules_index(self, load_module_pointer: int) -> int:
         """
@@ -338,13 +338,13 @@ class MetaReader:
         and ending at the first occurence of the null character
         """
         self.file.seek(file_pointer)
-        name = ""
+        name = b""
         while True:
-            read = str(self.file.read(1), encoding="UTF-8")
-            if read == "\0":
+            read = self.file.read(1)
+            if read == b"\0":
                 break
             name += read
-        return name
+        return str(name, encoding="UTF-8")
 
     def get_identifier_name(self, kind: int):
         """
-- 
2.43.0


From 360c21d73a818eec187e866be2ea4ce149ebbfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 16/36] fix: accept HPCToolkit identifier tuples without a NODE

---
 pipit/readers/hpctoolkit_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index d67f952..7265db3 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -969,8 +969,8 @@ class ProfileReader:
 
     def __clean_hit(self, tuples_map: dict) -> dict:
         # add None for information not present
-        if "Node" not in tuples_map:
-            tuples_map["Node"] = None
+        if "NODE" not in tuples_map:
+            tuples_map["NODE"] = None
         if "RANK" not in tuples_map:
             tuples_map["RANK"] = None
         if "THREAD" not in tuples_map:
-- 
2.43.0


From 41c159cbbac3909415e06f8140616cdf0c3a62d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 17/36] fix: accept HPCToolkit functions without a name

---
 pipit/readers/hpctoolkit_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index 7265db3..f934f76 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -154,8 +154,11 @@ class MetaReader:
             #                         "load_modules_index": load_module_index, \
             #                         "source_file_index": source_file_index}
 
-            # getting function name
-            function_string = self.common_strings[function["string_index"]]
+            # getting function name (anonymous functions don't have one)
+            if function["string_index"] is not None:
+                function_string = self.common_strings[function["string_index"]]
+            else:
+                function_string = "<unkown function>"
         else:
             # function is unkown
             function_string = "<unkown function>"
-- 
2.43.0


From a71695b004c4b4f20f6ebc8ae3cd88f4e639f88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 18/36] fix: a URL option set to something else than a string
 is a ValueError

---
 pipit/util/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/util/config.py b/pipit/util/config.py
index f71bb53..ba91e2f 100644
--- a/pipit/util/config.py
+++ b/pipit/util/config.py
@@ -72,7 +72,7 @@ def log_level_validator(key, value):
 
 # Validator to check if the value entered is a valid URL
 def url_validator(key, value):
-    if value.startswith("http://") or value.startswith("https://"):
+    if isinstance(value, str) and value.startswith(("http://", "https://")):
         return True
     else:
         raise ValueError(
-- 
2.43.0


From 301fbbd6b9a03cee7ebd2509d5fb6ed2a69490d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:59 +0000
Subject: [PATCH 19/36] fix: a single-process Nsight trace has a Process
 column, too

---
 pipit/readers/nsight_reader.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index a956fb8..d14e908 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -45,15 +45,11 @@ class NsightReader:
             # Converting Thread from float to int
             self.df["Thread"] = self.df["Thread"].astype(int)
 
-        # check if PID set is > 1, if so multiprocess or single process
-        if len(pid) > 1:
-            # Set Process column to PID
-            self.df["Process"] = self.df["PID"]
-            # Getting the PID set, creating a dictionary,
-            # and increment the values (0,1,2,...)
-            pid_dict = dict(zip(pid, range(0, len(pid))))
-            # Using the dictionary to replace the Process values
-            self.df["Process"].replace(pid_dict, inplace=True)
+        # Getting the PID set, creating a dictionary,
+        # and increment the values (0,1,2,...)
+        pid_dict = dict(zip(pid, range(0, len(pid))))
+        # Set Process column by mapping the PIDs with the dictionary
+        self.df["Process"] = self.df["PID"].map(pid_dict)
 
         # Copy self.df to create enter and leave rows
         df2 = self.df.copy()
-- 
2.43.0


From 8fd45a9335be83c5d48d708bd81fa1e0f3c3e817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:59 +0000
Subject: [PATCH 20/36] fix: keep Nsight ranges nested where they start or end
 at the same time

---
 pipit/readers/nsight_reader.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index d14e908..87bd31d 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -3,6 +3,7 @@
 #
 # SPDX-License-Identifier: MIT
 
+import numpy as np
 import pandas as pd
 import pipit.trace
 
@@ -65,10 +66,24 @@ class NsightReader:
         # Combine dataframes together
         self.df = pd.concat([self.df, df2])
 
-        # Tidy Dataframe
-        self.df.drop(["Start (ns)", "End (ns)"], axis=1, inplace=True)
+        # Order the rows by timestamp. At equal timestamps, ranges end before
+        # others start (empty ranges are in between), inner ranges end first,
+        # and outer ranges start first.
+        is_enter = (self.df["Event Type"] == "Enter").values
+        starts, ends = self.df["Start (ns)"].values, self.df["End (ns)"].values
+        rows = np.arange(len(self.df)) % max(len(df2), 1)
+        order = np.lexsort(
+            (
+                np.where(is_enter, rows, 2 * len(df2) - rows),
+                np.where(is_enter, -ends, -starts),
+                np.where(starts == ends, 1, np.where(is_enter, 2, 0)),
+                self.df["Timestamp (ns)"].values,
+            )
+        )
+        self.df = self.df.iloc[order]
 
-        self.df.sort_values(by="Timestamp (ns)", ascending=True, inplace=True)
+        # Tidy Dataframe
+        self.df = self.df.drop(["Start (ns)", "End (ns)"], axis=1)
 
         self.df.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From 844e37ad7845ef598ecf30831f34dfabfdd6c88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:02 +0000
Subject: [PATCH 21/36] fix: read OTF2 traces with several metric classes

---
 pipit/readers/otf2_reader.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 7eebd36..c9face6 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -201,7 +201,7 @@ class OTF2Reader:
             https://scorepci.pages.jsc.fz-juelich.de/otf2-pipelines/doc.r4707/python/basics.html#metrics
             """
 
-            # get members of metric class
+            # get members of all metric classes
             metric_members = (
                 self.definitions.loc[
                     self.definitions["Definition Type"] == "MetricClass"
@@ -209,7 +209,7 @@ class OTF2Reader:
                 .map(lambda attr: attr["members"])
                 .values
             )
-            metric_members = [] if len(metric_members) == 0 else metric_members[0]
+            metric_members = [m for members in metric_members for m in members]
 
             # ids of metric members
             metric_ids = list(
@@ -231,9 +231,9 @@ class OTF2Reader:
             # maps each metric to a list of its values
             metrics_dict = {metric_name: [] for metric_name in metric_names}
 
-            # used to keep track of time that the
-            # most recent metrics that were read at
-            prev_metric_time = -1
+            # used to keep track of the most recent metrics
+            # that were read and the time they were read at
+            prev_metrics, prev_metric_time = {}, -1
 
             # iterates through the events and processes them
             for loc_event in loc_events:
@@ -256,22 +256,25 @@ class OTF2Reader:
                         )
                         metric_values = event.values
 
-                        # append the values for the metrics
-                        # to their appropriate lists
-                        for i in range(len(metrics)):
-                            metrics_dict[metrics[i]].append(metric_values[i])
-
-                        # store the metrics and their timestamp
+                        # store the metrics and their timestamp (several
+                        # metric classes can be measured for one event)
+                        if event.time != prev_metric_time:
+                            prev_metrics = {}
+                        prev_metrics.update(zip(metrics, metric_values))
                         prev_metric_time = event.time
                     else:
                         # MetricClass metric events are synchronous
                         # and coupled with an enter or leave event that
                         # has the same timestamp
                         if event.time != prev_metric_time:
-                            # if the event is not paired with any metric, then
-                            # add placeholders for all the metric lists
-                            for metric in metric_names:
-                                metrics_dict[metric].append(float("nan"))
+                            prev_metrics = {}
+
+                        # append the values for the metrics to their lists,
+                        # with placeholders for those not paired with the event
+                        for metric in metrics_dict:
+                            metrics_dict[metric].append(
+                                prev_metrics.get(metric, float("nan"))
+                            )
 
                         # reset this as a metric event was not read
                         prev_metric_time = -1
-- 
2.43.0


From a2c2006a4882f3f5f4f83ff7e13d54c9d3af1654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:10 +0000
Subject: [PATCH 22/36] fix: no rows in the flat profile for functions that are
 not entered

---
 pipit/trace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index dfb0fc7..ca6e0c9 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -557,7 +557,7 @@ class Trace:
                 self.events.loc[self.events["Event Type"] == "Enter"]
                 .groupby([*groupby_columns, "Process"], observed=True)[metrics]
                 .sum()
-                .groupby(groupby_columns)
+                .groupby(groupby_columns, observed=True)
                 .mean()
             )
 
-- 
2.43.0


From c61ee2a51e805d651db0a28a2be2a4879631740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:06 +0000
Subject: [PATCH 23/36] fix: detect_pattern calculates the time metric it needs

---
 pipit/trace.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pipit/trace.py b/pipit/trace.py
index ca6e0c9..a6ad068 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -826,6 +826,12 @@ class Trace:
     ):
         import stumpy
 
+        # calculate the time metric if needed
+        if metric == "time.inc":
+            self.calc_inc_metrics(["Timestamp (ns)"])
+        elif metric == "time.exc":
+            self.calc_exc_metrics(["Timestamp (ns)"])
+
         enter_events = self.events[
             (self.events["Name"] == start_event)
             & (self.events["Event Type"] == "Enter")
-- 
2.43.0


From 623f1f4b55dc90bad6845bd54917e776bc5338eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:19 +0000
Subject: [PATCH 24/36] fix: round times down to microseconds in the Chrome
 export, also large and negative ones

---
 pipit/writers/chrome_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/writers/chrome_writer.py b/pipit/writers/chrome_writer.py
index fdc7a19..b2c4adf 100644
--- a/pipit/writers/chrome_writer.py
+++ b/pipit/writers/chrome_writer.py
@@ -33,7 +33,7 @@ class ChromeWriter:
         )
 
         # "ts" represents is the timestamp (in microseconds) of the event
-        df["ts"] = (events["Timestamp (ns)"] / 1e3).astype(int)
+        df["ts"] = (events["Timestamp (ns)"] // 1000).astype(int)
 
         # "pid" represents the process ID for the process that the event occurs in
         df["pid"] = events["Process"]
-- 
2.43.0


From b5851da06fdf576c1e9302e5dba58cd8eaba124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:24 +0000
Subject: [PATCH 25/36] fix: names in a CSV trace are text, also if they look
 like numbers or missing values

---
 pipit/trace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index a6ad068..2922c1b 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -68,7 +68,10 @@ class Trace:
 
     @staticmethod
     def from_csv(filename):
-        events_dataframe = pd.read_csv(filename, skipinitialspace=True)
+        # names are text, also those that look like numbers or missing values
+        events_dataframe = pd.read_csv(
+            filename, skipinitialspace=True, converters={"Name": str}
+        )
 
         # if timestamps are in seconds, convert them to nanoseconds
         if "Timestamp (s)" in events_dataframe.columns:
-- 
2.43.0


From e726419dbee7992f63f2c08a2c9e934d781e9871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:30 +0000
Subject: [PATCH 26/36] fix: keep OTF2 metric readings with the location they
 were taken at

---
 pipit/readers/otf2_reader.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index c9face6..3260ddf 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -231,9 +231,10 @@ class OTF2Reader:
             # maps each metric to a list of its values
             metrics_dict = {metric_name: [] for metric_name in metric_names}
 
-            # used to keep track of the most recent metrics
-            # that were read and the time they were read at
-            prev_metrics, prev_metric_time = {}, -1
+            # used to keep track of the most recent metrics that were
+            # read at each location and the time they were read at
+            # (events of several locations are read in order of time)
+            latest_metrics = {}
 
             # iterates through the events and processes them
             for loc_event in loc_events:
@@ -258,14 +259,21 @@ class OTF2Reader:
 
                         # store the metrics and their timestamp (several
                         # metric classes can be measured for one event)
+                        prev_metrics, prev_metric_time = latest_metrics.get(
+                            loc._ref, ({}, -1)
+                        )
                         if event.time != prev_metric_time:
                             prev_metrics = {}
                         prev_metrics.update(zip(metrics, metric_values))
-                        prev_metric_time = event.time
+                        latest_metrics[loc._ref] = (prev_metrics, event.time)
                     else:
                         # MetricClass metric events are synchronous
                         # and coupled with an enter or leave event that
-                        # has the same timestamp
+                        # has the same timestamp (and are reset here, as
+                        # a metric event was not read)
+                        prev_metrics, prev_metric_time = latest_metrics.pop(
+                            loc._ref, ({}, -1)
+                        )
                         if event.time != prev_metric_time:
                             prev_metrics = {}
 
@@ -276,9 +284,6 @@ class OTF2Reader:
                                 prev_metrics.get(metric, float("nan"))
                             )
 
-                        # reset this as a metric event was not read
-                        prev_metric_time = -1
-
                         """
                         Below is code to read the primary information about the
                         non-metric event, such as location, attributes, etc.
-- 
2.43.0


From 380f150ef68265c809fb38cbd7eac313363ce606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:25 +0000
Subject: [PATCH 27/36] fix: leave Computation also in Projections logs that
 end with its beginning

---
 pipit/readers/projections_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index ce87f06..cc7ec36 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -795,7 +795,9 @@ class ProjectionsReader:
                     )
 
             # Making sure that the log file ends with END_COMPUTATION
-            if len(data["Name"]) > 0 and data["Name"][-1] != "Computation":
+            if len(data["Name"]) > 0 and (
+                data["Name"][-1] != "Computation" or data["Event Type"][-1] != "Leave"
+            ):
                 time = data["Timestamp (ns)"][-1]
                 _add_to_trace_dict(data, "Computation", "Leave", time, pe_num, None)
 
-- 
2.43.0


From 99da67e51b1360a2d13542626354b5b0fa836a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:31 +0000
Subject: [PATCH 28/36] fix: four index numbers for Projections chares without
 dimensions

---
 pipit/readers/projections_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/projections_reader.py b/pipit/readers/projections_reader.py
index cc7ec36..6679371 100644
--- a/pipit/readers/projections_reader.py
+++ b/pipit/readers/projections_reader.py
@@ -108,9 +108,11 @@ class STSReader:
         else:
             return ret_val
 
-    # To get the dimension of an entry
+    # To get the dimension of an entry (the ids of chares
+    # without a dimension of their own consist of four numbers)
     def get_dimension(self, entry_id):
-        return self.chares[self.entries[entry_id][1]][1]
+        dimensions = self.chares[self.entries[entry_id][1]][1]
+        return dimensions if dimensions >= 0 else 4
 
     # Gets the user event name from the user_event_id
     def get_user_event(self, user_event_id):
-- 
2.43.0


From c3e3bdd2bbf4b1cf6d022258291c3c9c620cf17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:36 +0000
Subject: [PATCH 29/36] fix: types of OTF2 metric columns do not depend on the
 number of processes

---
 pipit/readers/otf2_reader.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index 3260ddf..b76657a 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -461,8 +461,11 @@ class OTF2Reader:
 
         pool.close()
 
-        # merges the dataframe into one events dataframe
-        events_dataframe = pd.concat(events_dataframes)
+        # merges the dataframe into one events dataframe (without
+        # empty ones, which would change the types of the columns)
+        events_dataframe = pd.concat(
+            [df for df in events_dataframes if len(df) > 0] or events_dataframes[:1]
+        )
         del events_dataframes
 
         # accessing the clock properties of the trace using the definitions
-- 
2.43.0


From 28f7c2a46d618be340944b65301fbd0012df3e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:35 +0000
Subject: [PATCH 30/36] fix: HPCToolkit trace lines without a rank belong to
 process 0

---
 pipit/readers/hpctoolkit_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index f934f76..fb2535e 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -975,7 +975,8 @@ class ProfileReader:
         if "NODE" not in tuples_map:
             tuples_map["NODE"] = None
         if "RANK" not in tuples_map:
-            tuples_map["RANK"] = None
+            # not an MPI program: there is only one process
+            tuples_map["RANK"] = 0
         if "THREAD" not in tuples_map:
             tuples_map["THREAD"] = None
         if "CORE" not in tuples_map:
-- 
2.43.0


From fcc36a54a32c96bfba5b916567235cff7fc1fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:28 +0000
Subject: [PATCH 31/36] fix: names of Nsight ranges are text, also if they look
 like missing values

---
 pipit/readers/nsight_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/nsight_reader.py b/pipit/readers/nsight_reader.py
index 87bd31d..78c497d 100644
--- a/pipit/readers/nsight_reader.py
+++ b/pipit/readers/nsight_reader.py
@@ -22,8 +22,9 @@ class NsightReader:
         utilizes pandas to convert it from a csv into a dataframe.
         """
 
-        # Read in csv
-        self.df = pd.read_csv(self.file_name)
+        # Read in csv. Names are text, also those that look like numbers or
+        # missing values
+        self.df = pd.read_csv(self.file_name, converters={"Name": str})
 
         # Grab the set of the column PID columns to see if
         # mutliprocess and convert to a list
-- 
2.43.0


From c962604b129234883a29d3e32dbe35a6429981d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:05 +0000
Subject: [PATCH 32/36] fix: keep partner times of large whole timestamps exact

---
 pipit/trace.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pipit/trace.py b/pipit/trace.py
index 2922c1b..1751fdb 100644
--- a/pipit/trace.py
+++ b/pipit/trace.py
@@ -118,7 +118,7 @@ class Trace:
 
         if "_matching_event" not in self.events.columns:
             matching_events = [float("nan")] * len(self.events)
-            matching_times = [float("nan")] * len(self.events)
+            matching_times = [None] * len(self.events)
 
             # only pairing enter and leave rows
             enter_leave_df = self.events.loc[
@@ -194,7 +194,12 @@ class Trace:
                             continue
 
             self.events["_matching_event"] = matching_events
-            self.events["_matching_timestamp"] = matching_times
+            # whole timestamps stay whole where others are missing
+            # (large ones are not exact as floating point numbers)
+            is_whole = pd.api.types.is_integer_dtype(self.events["Timestamp (ns)"])
+            self.events["_matching_timestamp"] = pd.array(
+                matching_times, dtype="Int64" if is_whole else "float64"
+            )
 
             self.events = self.events.astype({"_matching_event": "Int32"})
 
-- 
2.43.0


From 33814cf4924b13303218ef849ac01925eae1e95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 33/36] fix: OTF2 threads whose location numbers are far apart
 were merged

---
 pipit/readers/otf2_reader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index b76657a..b762125 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -495,9 +495,10 @@ class OTF2Reader:
 
         # convert these to ints
         # (sometimes they get converted to floats
-        #  while concatenating dataframes)
+        #  while concatenating dataframes; locations have
+        #  64 bit numbers, and so have the threads)
         events_dataframe = events_dataframe.astype(
-            {"Thread": "int32", "Process": "int32"}
+            {"Thread": "int64", "Process": "int64"}
         )
 
         # using categorical dtypes for memory optimization
-- 
2.43.0


From 9658fcb9a76556262ec6607a47a367264685d30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 34/36] fix: order of simultaneous OTF2 events depended on the
 number of workers

---
 pipit/readers/otf2_reader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipit/readers/otf2_reader.py b/pipit/readers/otf2_reader.py
index b762125..498a41b 100644
--- a/pipit/readers/otf2_reader.py
+++ b/pipit/readers/otf2_reader.py
@@ -159,7 +159,9 @@ class OTF2Reader:
             # and gets all the locations
             # of the trace
             rank, size = rank_size[0], rank_size[1]
-            locations = list(trace.definitions._locations)
+            # (in order of their numbers, as this is the order in which
+            # simultaneous events of several locations are read)
+            locations = sorted(trace.definitions._locations, key=lambda loc: loc._ref)
             num_locations = len(locations)
 
             # base number of locations read by each process
-- 
2.43.0


From 2da193cc1d5d779c3c62a4bb0f8cf03bfd79b60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:14 +0000
Subject: [PATCH 35/36] fix: calling context trees deeper than the recursion
 limit could not be built

---
 pipit/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipit/graph.py b/pipit/graph.py
index 0e94063..e322651 100644
--- a/pipit/graph.py
+++ b/pipit/graph.py
@@ -76,7 +76,7 @@ class Node:
         if self.parent is None:
             return 0
         else:
-            return 1 + self.parent._calculate_level()
+            return 1 + self.parent.get_level()
 
     def __eq__(self, obj) -> bool:
         if isinstance(obj, Node):
-- 
2.43.0


From 868b84385e6e3387568b2aaeaf5f7563aa450441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:07 +0000
Subject: [PATCH 36/36] fix: HPCToolkit context trees deeper than the recursion
 limit could not be read

---
 pipit/readers/hpctoolkit_reader.py | 41 ++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/pipit/readers/hpctoolkit_reader.py b/pipit/readers/hpctoolkit_reader.py
index fb2535e..b6c0dde 100644
--- a/pipit/readers/hpctoolkit_reader.py
+++ b/pipit/readers/hpctoolkit_reader.py
@@ -623,14 +623,27 @@ class MetaReader:
         parent_context_id: int,
     ) -> None:
         """
-        Recursive function to read all child contexts and add it to the CCT
+        Reads all child contexts and adds them to the CCT, each before its
+        own children (without recursion, as trees can be deep)
         """
 
-        if total_size <= 0 or context_array_pointer <= 0:
-            return
-        self.file.seek(context_array_pointer)
-        index = 0
-        while index < total_size:
+        # arrays of contexts that are still to be read
+        # (what remains of one follows the children of the one read last)
+        pending = [
+            (context_array_pointer, total_size, parent_node, parent_context_id)
+        ]
+        while pending:
+            (
+                context_array_pointer,
+                total_size,
+                parent_node,
+                parent_context_id,
+            ) = pending.pop()
+            if total_size <= 0 or context_array_pointer <= 0:
+                continue
+            self.file.seek(context_array_pointer)
+            index = 0
+
             # Reading information about child contexts (as in the children of
             # this context)
             # Total size of *pChildren (I call pChildren children_pointer),
@@ -795,12 +808,18 @@ class MetaReader:
 
             self.context_map[context_id] = context
 
-            # recursively call this function to add more children
-            return_address = self.file.tell()
-            self.__read_children_contexts(
-                children_pointer, children_size, next_parent_node, context_id
+            # the children of this context are read next, then those after it
+            pending.append(
+                (
+                    context_array_pointer + index,
+                    total_size - index,
+                    parent_node,
+                    parent_context_id,
+                )
+            )
+            pending.append(
+                (children_pointer, children_size, next_parent_node, context_id)
             )
-            self.file.seek(return_address)
 
 
 class ProfileReader:
-- 
2.43.0

