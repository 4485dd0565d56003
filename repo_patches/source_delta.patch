From 3f8ae265675980564bd6d9fa2e048d438599b2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:14 +0000
Subject: [PATCH 01/52] fix: an allowed panic no longer restarts the flow from
 its first command

The deferred recover in Cmd.execute swallows a panic when errors are allowed,
the named result newCurrCmdIdx was still 0 then, so the executor went back to
the beginning of the flow, endlessly.
---
 pkg/core/model/cmd.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index db61fae..3c6a030 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -242,6 +242,9 @@ func (self *Cmd) execute(
 
 	logFilePath := self.genLogFilePath(env)
 
+	// If a panic is swallowed below, the flow should go on from this command
+	newCurrCmdIdx = currCmdIdx
+
 	if cc.FlowStatus != nil {
 		cc.FlowStatus.OnCmdStart(flow, currCmdIdx, env, logFilePath)
 		defer func() {
-- 
2.43.0


From c65093a3d0acd9e6dcbdec83c825e23a0ef43822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 02/52] fix: error tolerance also applies when no session
 status is written

Swallowing panics of allowed-to-fail (or quiet-error) commands depended on
cc.FlowStatus, so in session-less runs and async tasks without a status
writer an allowed error still killed the flow. A user abort is never an
allowed error: pass it through.
---
 pkg/core/model/cmd.go | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 3c6a030..763f719 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -247,26 +247,26 @@ func (self *Cmd) execute(
 
 	if cc.FlowStatus != nil {
 		cc.FlowStatus.OnCmdStart(flow, currCmdIdx, env, logFilePath)
-		defer func() {
-			r := recover()
-			handledErr := false
-			var err error
-			isAbort := false
-			if r != nil {
-				handledErr = cc.HandledErrors[r]
-				err = r.(error)
-				_, isAbort = err.(*AbortByUserErr)
-			}
-
-			if (r == nil || !handledErr) && !isAbort {
-				cc.FlowStatus.OnCmdFinish(flow, currCmdIdx, env, succeeded, err, !shouldExecByMask(mask) && !executedAndSucceeded(mask))
-				cc.HandledErrors[r] = true
-			}
-			if r != nil && !self.flags.quietError && !allowError {
-				panic(r)
-			}
-		}()
 	}
+	defer func() {
+		r := recover()
+		handledErr := false
+		var err error
+		isAbort := false
+		if r != nil {
+			handledErr = cc.HandledErrors[r]
+			err = r.(error)
+			_, isAbort = err.(*AbortByUserErr)
+		}
+
+		if cc.FlowStatus != nil && (r == nil || !handledErr) && !isAbort {
+			cc.FlowStatus.OnCmdFinish(flow, currCmdIdx, env, succeeded, err, !shouldExecByMask(mask) && !executedAndSucceeded(mask))
+			cc.HandledErrors[r] = true
+		}
+		if r != nil && (isAbort || (!self.flags.quietError && !allowError)) {
+			panic(r)
+		}
+	}()
 
 	if mask != nil && mask.OverWriteFinishEnv != nil {
 		p := env
-- 
2.43.0


From 418f4dbece42a886a71bae142fe4754a27061ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:20 +0000
Subject: [PATCH 03/52] fix: join.run fails and stops when one of its runs
 fails

The result of each run was dropped, so a failed combination was reported as
success and the rest of the combinations (and the flow) went on.
---
 pkg/mods/builtin/join.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/join.go b/pkg/mods/builtin/join.go
index 92aabcf..602f8f4 100644
--- a/pkg/mods/builtin/join.go
+++ b/pkg/mods/builtin/join.go
@@ -117,8 +117,11 @@ func JoinRun(
 		for i, key := range keys {
 			args = append(args, key+"="+vals[i])
 		}
-		cc.Executor.Execute(flow.Cmds[currCmdIdx].DisplayPath(cc.Cmds.Strs.PathSep, false),
+		ok := cc.Executor.Execute(flow.Cmds[currCmdIdx].DisplayPath(cc.Cmds.Strs.PathSep, false),
 			true, cc, env, nil, args...)
+		if !ok {
+			return currCmdIdx, false
+		}
 		if !iter.next() {
 			break
 		}
-- 
2.43.0


From b14ae0673b89ad357961792bca79849e9f5e71e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:59 +0000
Subject: [PATCH 04/52] fix: a command that only describes another no longer
 lifts the os-command check of the rest of its line

---
 pkg/core/execute/executor.go | 2 +-
 pkg/mods/builtin/builtin.go  | 2 --
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index e4e0d61..f8b83ed 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -163,7 +163,7 @@ func (self *Executor) execute(caller string, cc *model.Cli, env *model.Env, mask
 		if len(flow.Cmds) != 0 {
 			firstCmd = flow.Cmds[0].LastCmd()
 		}
-		if firstCmd == nil || !firstCmd.ShouldIgnoreFollowingDeps() {
+		if !flow.TailModeCall && (firstCmd == nil || !firstCmd.ShouldIgnoreFollowingDeps()) {
 			if !verifyOsDepCmds(cc, flow, env) {
 				return false
 			}
diff --git a/pkg/mods/builtin/builtin.go b/pkg/mods/builtin/builtin.go
index b1989a3..e5d58cf 100644
--- a/pkg/mods/builtin/builtin.go
+++ b/pkg/mods/builtin/builtin.go
@@ -297,7 +297,6 @@ func RegisterCmdAndHelpCmds(cmds *model.CmdTree) {
 			"display command usage").
 		SetAllowTailModeCall().
 		SetQuiet().
-		SetIgnoreFollowingDeps().
 		SetPriority().
 		AddArg("cmd-path", "", "path", "p")
 
@@ -306,7 +305,6 @@ func RegisterCmdAndHelpCmds(cmds *model.CmdTree) {
 			"display command full info").
 		SetAllowTailModeCall().
 		SetQuiet().
-		SetIgnoreFollowingDeps().
 		SetPriority().
 		AddArg("cmd-path", "", "path", "p")
 
-- 
2.43.0


From ecb21ca63fb0338946a2ef4409cd1a74ad90a13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:15 +0000
Subject: [PATCH 05/52] fix: a command skipped by the user is not recorded as
 succeeded

---
 pkg/core/model/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 763f719..cca01f3 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -1085,5 +1085,5 @@ func shouldExecByMask(mask *ExecuteMask) bool {
 }
 
 func executedAndSucceeded(mask *ExecuteMask) bool {
-	return (mask != nil || mask.ResultIfExecuted == ExecutedResultSucceeded)
+	return mask != nil && mask.ResultIfExecuted == ExecutedResultSucceeded
 }
-- 
2.43.0


From 8e84a453fd403edd626164aec7037c72b3410434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:45 +0000
Subject: [PATCH 06/52] fix: waiting for a background task by name or for the
 latest one no longer fails when it is not the earliest

---
 pkg/core/model/bg_tasks.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkg/core/model/bg_tasks.go b/pkg/core/model/bg_tasks.go
index 94f7839..ef8fbe9 100644
--- a/pkg/core/model/bg_tasks.go
+++ b/pkg/core/model/bg_tasks.go
@@ -224,14 +224,20 @@ func (self *BgTasks) BringBgTaskToFront(tid string, stdout io.Writer) {
 func (self *BgTasks) RemoveTask(tid string) {
 	self.lock.Lock()
 	defer self.lock.Unlock()
-	_, ok := self.tasks[tid]
-	if len(self.tids) == 0 || !ok {
+	task, ok := self.tasks[tid]
+	if !ok {
 		panic(fmt.Errorf("[BgTasks.RemoveTask] task '%s' not found", tid))
 	}
-	if self.tids[0] != tid {
-		panic(fmt.Errorf("[BgTasks.RemoveTask] removing task '%s' is not the earliest", tid))
+	for i, it := range self.tids {
+		if it == tid {
+			self.tids = append(append([]string{}, self.tids[:i]...), self.tids[i+1:]...)
+			break
+		}
 	}
-	self.tids = self.tids[1:]
 	delete(self.tasks, tid)
-	// TODO: remove it from name2task
+	for name, it := range self.name2task {
+		if it == task {
+			delete(self.name2task, name)
+		}
+	}
 }
-- 
2.43.0


From bce7e2a8aa0f9698ed53d989f4be34c95b24b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 07/52] fix: waiting for a background task reports its failure

---
 pkg/mods/builtin/bg_tasks.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pkg/mods/builtin/bg_tasks.go b/pkg/mods/builtin/bg_tasks.go
index a126843..8f02b3e 100644
--- a/pkg/mods/builtin/bg_tasks.go
+++ b/pkg/mods/builtin/bg_tasks.go
@@ -20,14 +20,15 @@ func WaitForLatestBgTaskFinish(
 			"must be in main thread to wait for other threads to finish"))
 	}
 
+	var errs []error
 	tid, task, ok := cc.BgTasks.GetLatestTask()
 	if ok {
-		errs := WaitBgTask(cc, env, tid, task)
+		errs = WaitBgTask(cc, env, tid, task)
 		for _, err := range errs {
 			display.PrintError(cc, env, err)
 		}
 	}
-	return currCmdIdx, true
+	return currCmdIdx, len(errs) == 0
 }
 
 func WaitForBgTaskFinishByName(
@@ -46,17 +47,18 @@ func WaitForBgTaskFinishByName(
 			"must be in main thread to wait for other threads to finish"))
 	}
 
+	var errs []error
 	verifiedCmd := cc.NormalizeCmd(true, bgCmd)
 	tid, task, ok := cc.BgTasks.GetTaskByCmd(verifiedCmd)
 	if !ok {
 		display.PrintTipTitle(cc.Screen, env, "command '"+bgCmd+"' not in background")
 	} else {
-		errs := WaitBgTask(cc, env, tid, task)
+		errs = WaitBgTask(cc, env, tid, task)
 		for _, err := range errs {
 			display.PrintError(cc, env, err)
 		}
 	}
-	return currCmdIdx, true
+	return currCmdIdx, len(errs) == 0
 }
 
 func WaitForAllBgTasksFinish(
@@ -76,7 +78,7 @@ func WaitForAllBgTasksFinish(
 	for _, err := range errs {
 		display.PrintError(cc, env, err)
 	}
-	return currCmdIdx, true
+	return currCmdIdx, len(errs) == 0
 }
 
 func WaitBgTask(cc *model.Cli, env *model.Env, tid string, task *model.BgTask) (errs []error) {
-- 
2.43.0


From 8bce54abe23ea99b5373708b38aacb1553289dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:34 +0000
Subject: [PATCH 08/52] fix: close the record of a sub-flow and of its command
 when the sub-flow fails

The status record stayed inside the sub-flow after a tolerated failure, so
the commands that followed were read back as commands of that sub-flow and a
retry skipped and re-ran the wrong ones.
---
 pkg/core/model/cmd.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index cca01f3..60ddf8a 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -259,8 +259,13 @@ func (self *Cmd) execute(
 			_, isAbort = err.(*AbortByUserErr)
 		}
 
-		if cc.FlowStatus != nil && (r == nil || !handledErr) && !isAbort {
-			cc.FlowStatus.OnCmdFinish(flow, currCmdIdx, env, succeeded, err, !shouldExecByMask(mask) && !executedAndSucceeded(mask))
+		if cc.FlowStatus != nil && !isAbort {
+			// A handled error is already in the record of the inner command
+			recordErr := err
+			if handledErr {
+				recordErr = nil
+			}
+			cc.FlowStatus.OnCmdFinish(flow, currCmdIdx, env, succeeded, recordErr, !shouldExecByMask(mask) && !executedAndSucceeded(mask))
 			cc.HandledErrors[r] = true
 		}
 		if r != nil && (isAbort || (!self.flags.quietError && !allowError)) {
@@ -934,9 +939,13 @@ func (self *Cmd) executeFlow(argv ArgVals, cc *Cli, env *Env, mask *ExecuteMask)
 	if cc.FlowStatus != nil {
 		cc.FlowStatus.OnSubFlowStart(flowEnv, flowStr)
 		defer func() {
-			if succeeded {
+			r := recover()
+			if _, isAbort := r.(*AbortByUserErr); !isAbort {
 				cc.FlowStatus.OnSubFlowFinish(flowEnv, succeeded, skipped)
 			}
+			if r != nil {
+				panic(r)
+			}
 		}()
 	}
 	if mask != nil && len(mask.SubFlow) != 0 {
-- 
2.43.0


From de0766dfde75f665ebc8974dadc7299e5bb22eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:48 +0000
Subject: [PATCH 09/52] fix: a recorded flow which spans several lines can be
 read back

---
 pkg/core/model/executed.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/executed.go b/pkg/core/model/executed.go
index db692b3..3091771 100644
--- a/pkg/core/model/executed.go
+++ b/pkg/core/model/executed.go
@@ -217,10 +217,11 @@ func tryParseExecutedFlow(path ExecutedStatusFilePath, lines []string,
 
 	executed = NewExecutedFlow(path.DirName)
 
-	executed.Flow, lines, ok = parseMarkedOneLineContent(path, lines, "flow", level)
+	flowLines, lines, ok := parseMarkedContent(path, lines, "flow", level)
 	if !ok {
 		return executed, hasDelayCmd, lines, lastActiveTs, false
 	}
+	executed.Flow = strings.Join(flowLines, "\n")
 	executed.StartTs, lines, ok = parseMarkedTime(path, lines, "flow-start-time", level)
 	if !ok {
 		return executed, hasDelayCmd, lines, lastActiveTs, false
-- 
2.43.0


From eabc45ad573d1dd21e0d295867fac05b02847c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:28 +0000
Subject: [PATCH 10/52] fix: long lines of env, hub and help files no longer
 cut off what follows

---
 pkg/core/model/helps.go               | 5 +++++
 pkg/core/model/proto.go               | 4 +++-
 pkg/mods/persist/hub_meta/hub_meta.go | 5 +++++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/helps.go b/pkg/core/model/helps.go
index 0d7be08..4c72c8d 100644
--- a/pkg/core/model/helps.go
+++ b/pkg/core/model/helps.go
@@ -3,6 +3,7 @@ package model
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 )
 
@@ -27,11 +28,15 @@ func (self *Helps) RegHelpFile(path string) {
 	defer file.Close()
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, math.MaxInt32)
 	scanner.Split(bufio.ScanLines)
 	var lines []string
 	for scanner.Scan() {
 		lines = append(lines, scanner.Text())
 	}
+	if err := scanner.Err(); err != nil {
+		panic(fmt.Errorf("read help file failed: %v", err))
+	}
 
 	self.RegHelp(lines[0], lines[1:])
 }
diff --git a/pkg/core/model/proto.go b/pkg/core/model/proto.go
index 1db1472..2434bd2 100644
--- a/pkg/core/model/proto.go
+++ b/pkg/core/model/proto.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"os"
 	"path/filepath"
 	"sort"
@@ -35,6 +36,7 @@ func EnvOutput(env *Env, writer io.Writer, sep string, filtered []string, skipDe
 
 func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 	scanner := bufio.NewScanner(reader)
+	scanner.Buffer(nil, math.MaxInt32)
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		text := scanner.Text()
@@ -55,7 +57,7 @@ func EnvInput(env *Env, reader io.Reader, sep string, delMark string) error {
 		}
 	}
 
-	return nil
+	return scanner.Err()
 }
 
 func saveEnvToFile(env *Env, path string, sep string, filtered []string, skipDefault bool) {
diff --git a/pkg/mods/persist/hub_meta/hub_meta.go b/pkg/mods/persist/hub_meta/hub_meta.go
index a8520be..7b823fc 100644
--- a/pkg/mods/persist/hub_meta/hub_meta.go
+++ b/pkg/mods/persist/hub_meta/hub_meta.go
@@ -3,6 +3,7 @@ package hub_meta
 import (
 	"bufio"
 	"fmt"
+	"math"
 	"os"
 	"path/filepath"
 	"strings"
@@ -92,6 +93,7 @@ func ReadReposInfoFile(
 	defer file.Close()
 
 	scanner := bufio.NewScanner(file)
+	scanner.Buffer(nil, math.MaxInt32)
 	scanner.Split(bufio.ScanLines)
 	for scanner.Scan() {
 		line := strings.Trim(scanner.Text(), "\n\r")
@@ -110,6 +112,9 @@ func ReadReposInfoFile(
 		infos = append(infos, info)
 		list[info.Addr.Str()] = true
 	}
+	if err := scanner.Err(); err != nil {
+		panic(fmt.Errorf("[ReadReposInfoFile] read file '%s' failed: %v", path, err))
+	}
 	return
 }
 
-- 
2.43.0


From c04842d9d8b2f775ecf7c58b06d7fff104c745ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:58 +0000
Subject: [PATCH 11/52] fix: saving a flow no longer loses the previous version
 when it is cut off

---
 pkg/mods/persist/meta_file/meta_file.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/pkg/mods/persist/meta_file/meta_file.go b/pkg/mods/persist/meta_file/meta_file.go
index 6ae526d..bad7c7f 100644
--- a/pkg/mods/persist/meta_file/meta_file.go
+++ b/pkg/mods/persist/meta_file/meta_file.go
@@ -247,13 +247,27 @@ func (self *MetaFile) parse(lines []string) {
 }
 
 func (self *MetaFile) Save() {
-	file, err := os.OpenFile(self.path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
+	tmp := self.path + ".tmp"
+	file, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		panic(fmt.Errorf("[MetaFile.Save] open mod meta file '%s' for save failed: %v",
-			self.path, err))
+			tmp, err))
 	}
 	defer file.Close()
-	self.save(file)
+
+	buf := bytes.NewBuffer(nil)
+	self.save(buf)
+	_, err = file.Write(buf.Bytes())
+	if err != nil {
+		panic(fmt.Errorf("[MetaFile.Save] write mod meta file '%s' failed: %v", tmp, err))
+	}
+	file.Close()
+
+	err = os.Rename(tmp, self.path)
+	if err != nil {
+		panic(fmt.Errorf("[MetaFile.Save] rename mod meta file '%s' to '%s' failed: %v",
+			tmp, self.path, err))
+	}
 }
 
 func (self *MetaFile) save(w io.Writer) {
-- 
2.43.0


From 2cac9eea82a31acde55f0d440a6d483cd92538de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:08 +0000
Subject: [PATCH 12/52] fix: the help of a repo may contain tabs and line
 breaks

---
 pkg/mods/persist/hub_meta/hub_meta.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/persist/hub_meta/hub_meta.go b/pkg/mods/persist/hub_meta/hub_meta.go
index 7b823fc..3acc8a3 100644
--- a/pkg/mods/persist/hub_meta/hub_meta.go
+++ b/pkg/mods/persist/hub_meta/hub_meta.go
@@ -61,7 +61,7 @@ func WriteReposInfoFile(
 
 	for _, info := range infos {
 		_, err = fmt.Fprintf(file, "%s%s%s%s%s%s%s%s%s\n", info.Addr.Str(), sep, info.AddReason, sep,
-			tryConvAbsPathToRelPath(hubRootPath, info.Path), sep, info.HelpStr, sep, info.OnOff)
+			tryConvAbsPathToRelPath(hubRootPath, info.Path), sep, oneField(info.HelpStr, sep), sep, info.OnOff)
 		if err != nil {
 			panic(fmt.Errorf("[WriteReposInfoFile] write file '%s' failed: %v", tmp, err))
 		}
@@ -118,6 +118,14 @@ func ReadReposInfoFile(
 	return
 }
 
+// Free text could have any char in it, those with meanings in the file should be replaced
+func oneField(text string, sep string) string {
+	for _, it := range []string{sep, "\n", "\r"} {
+		text = strings.ReplaceAll(text, it, " ")
+	}
+	return text
+}
+
 func tryConvAbsPathToRelPath(hubRootPath string, path string) string {
 	if strings.HasPrefix(path, hubRootPath) {
 		return HubRootPathMark + path[len(hubRootPath):]
-- 
2.43.0


From 297607d9f409ce8d0426ee769c0a52fa6ef2e5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:03 +0000
Subject: [PATCH 13/52] fix: renaming a flow asks before it overwrites another
 one

---
 pkg/mods/builtin/flow.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index 2855106..de86815 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -110,6 +110,14 @@ func RenameFlow(
 			fmt.Sprintf("path '%s' does not exist", srcFilePath)))
 	}
 
+	if fileExists(destFilePath) {
+		cc.Screen.Print(fmt.Sprintf(display.ColorTip("[confirm]", env)+
+			" flow file of '%s' exists, "+
+			"type "+display.ColorWarn("'y'", env)+" and press enter to "+
+			display.ColorWarn("overwrite:", env)+"\n", argDestCmdPath))
+		utils.UserConfirm()
+	}
+
 	err = os.Rename(srcFilePath, destFilePath)
 	if err != nil {
 		panic(model.NewCmdError(flow.Cmds[currCmdIdx],
-- 
2.43.0


From 1dcc62a2878823dadb0e184ea4cd1a1930235468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 14/52] fix: an id of nothing but brackets no longer matches
 any session (sessions.remove removed one, sessions.retry ran one)

---
 pkg/mods/builtin/sessions.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/sessions.go b/pkg/mods/builtin/sessions.go
index 5dbeb18..247b5db 100644
--- a/pkg/mods/builtin/sessions.go
+++ b/pkg/mods/builtin/sessions.go
@@ -548,7 +548,14 @@ func findSessions(
 	includeDone bool,
 	includeRunning bool) (sessions []model.SessionStatus, total int) {
 
-	id = normalizeSid(id)
+	if len(id) != 0 {
+		rawId := id
+		id = normalizeSid(rawId)
+		// An empty id matches any session
+		if len(id) == 0 {
+			panic(fmt.Errorf("session id '%s' is empty", rawId))
+		}
+	}
 
 	sessions, total = model.ListSessions(env, findStrs, id, cntLimit, includeError, includeDone, includeRunning)
 	if len(sessions) == 0 {
-- 
2.43.0


From 9310da86d9adfb0a31a5a64477f3fe337fe69ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:37 +0000
Subject: [PATCH 15/52] fix: purging by the exact address of an enabled repo
 damaged the repo list

---
 pkg/mods/builtin/hub.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index 92a6d28..a1a4326 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -645,7 +645,9 @@ func exactMatchHubRepo(infos []meta.RepoInfo, findStrs ...string) (info meta.Rep
 	}
 	for i, info := range infos {
 		if info.Addr.Str() == findStr {
-			return info, append(infos[:i], infos[i+1:]...), true
+			// Copy, the caller may still use the origin list
+			rest = append(rest, infos[:i]...)
+			return info, append(rest, infos[i+1:]...), true
 		}
 	}
 	return
-- 
2.43.0


From 24f124d2b5a6673a251d634030cab4140278ce6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:21 +0000
Subject: [PATCH 16/52] fix: moving saved flows to a dir silently overwrote
 flows in that dir

---
 pkg/mods/builtin/hub.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/mods/builtin/hub.go b/pkg/mods/builtin/hub.go
index a1a4326..77a1897 100644
--- a/pkg/mods/builtin/hub.go
+++ b/pkg/mods/builtin/hub.go
@@ -766,6 +766,10 @@ func moveSavedFlowsToLocalDir(toDir string, cc *model.Cli, env *model.Env, cmd m
 
 		// This dir is managed, so will be no sub-dir
 		destPath := filepath.Join(toDir, filepath.Base(path))
+		if fileExists(destPath) {
+			panic(model.NewCmdError(cmd, fmt.Sprintf("move file '%s' to '%s' failed: file exists",
+				path, destPath)))
+		}
 
 		err = utils.MoveFile(path, destPath)
 		if err != nil {
-- 
2.43.0


From 566508159e580ebe4004d852ded856dee7c92d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:28 +0000
Subject: [PATCH 17/52] fix: flow.rename no longer renames a flow to the name
 of a command which is not a saved flow

---
 pkg/mods/builtin/flow.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/flow.go b/pkg/mods/builtin/flow.go
index de86815..397026d 100644
--- a/pkg/mods/builtin/flow.go
+++ b/pkg/mods/builtin/flow.go
@@ -102,7 +102,7 @@ func RenameFlow(
 	assertNotTailMode(flow, currCmdIdx)
 
 	argSrcCmdPath, srcCmdPath, srcFilePath, _ := getFlowCmdPath(flow, currCmdIdx, true, "", argv, cc, env, true, "src")
-	argDestCmdPath, destCmdPath, destFilePath, _ := getFlowCmdPath(flow, currCmdIdx, true, "", argv, cc, env, false, "dest")
+	argDestCmdPath, destCmdPath, destFilePath, destCmdExists := getFlowCmdPath(flow, currCmdIdx, true, "", argv, cc, env, false, "dest")
 
 	_, err := os.Stat(srcFilePath)
 	if os.IsNotExist(err) {
@@ -116,6 +116,9 @@ func RenameFlow(
 			"type "+display.ColorWarn("'y'", env)+" and press enter to "+
 			display.ColorWarn("overwrite:", env)+"\n", argDestCmdPath))
 		utils.UserConfirm()
+	} else if destCmdExists {
+		panic(model.NewCmdError(flow.Cmds[currCmdIdx],
+			fmt.Sprintf("cmd '%s' exists but it is not a saved flow", argDestCmdPath)))
 	}
 
 	err = os.Rename(srcFilePath, destFilePath)
-- 
2.43.0


From 59c0cb4a7566a5f19219ba20a966c52d76398f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:29 +0000
Subject: [PATCH 18/52] fix: an empty or unreadable help file in a repo made
 every command fail

---
 pkg/core/model/helps.go |  3 +++
 pkg/mods/builtin/mod.go | 14 +++++++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/helps.go b/pkg/core/model/helps.go
index 4c72c8d..c2284e7 100644
--- a/pkg/core/model/helps.go
+++ b/pkg/core/model/helps.go
@@ -38,6 +38,9 @@ func (self *Helps) RegHelpFile(path string) {
 		panic(fmt.Errorf("read help file failed: %v", err))
 	}
 
+	if len(lines) == 0 {
+		return
+	}
 	self.RegHelp(lines[0], lines[1:])
 }
 
diff --git a/pkg/mods/builtin/mod.go b/pkg/mods/builtin/mod.go
index 0482ded..7cc5122 100644
--- a/pkg/mods/builtin/mod.go
+++ b/pkg/mods/builtin/mod.go
@@ -58,7 +58,7 @@ func loadLocalMods(
 		}
 
 		if strings.HasSuffix(metaPath, helpExt) {
-			cc.Helps.RegHelpFile(metaPath)
+			regHelpFile(cc, metaPath, source, panicRecover)
 			return nil
 		}
 
@@ -101,3 +101,15 @@ func loadLocalMods(
 		return nil
 	})
 }
+
+func regHelpFile(cc *model.Cli, path string, source string, panicRecover bool) {
+	defer func() {
+		if !panicRecover {
+			return
+		}
+		if err := recover(); err != nil {
+			cc.TolerableErrs.OnErr(err, source, path, "help file loading failed")
+		}
+	}()
+	cc.Helps.RegHelpFile(path)
+}
-- 
2.43.0


From c8fee35b9957533272e6c650fd70edf1cf6a3b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:30 +0000
Subject: [PATCH 19/52] fix: a removed repo dir with a module file ext made
 every command fail

---
 pkg/mods/builtin/mod.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/mod.go b/pkg/mods/builtin/mod.go
index 7cc5122..58add03 100644
--- a/pkg/mods/builtin/mod.go
+++ b/pkg/mods/builtin/mod.go
@@ -45,7 +45,11 @@ func loadLocalMods(
 
 	// TODO: return filepath.SkipDir to avoid some non-sense scanning
 	filepath.Walk(root, func(metaPath string, info fs.FileInfo, err error) error {
-		if info != nil && info.IsDir() {
+		// The root dir (or a file) may have been removed
+		if info == nil {
+			return nil
+		}
+		if info.IsDir() {
 			// Skip hidden file or dir
 			base := filepath.Base(metaPath)
 			if len(base) > 0 && base[0] == '.' {
-- 
2.43.0


From d153e42c0bc26f855365526fcbe6500a861609f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:32 +0000
Subject: [PATCH 20/52] fix: a module dir changed the args and deps of an
 existing command from another source

---
 pkg/mods/persist/mod_meta/mod_reg.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/mods/persist/mod_meta/mod_reg.go b/pkg/mods/persist/mod_meta/mod_reg.go
index 499c954..e1b59eb 100644
--- a/pkg/mods/persist/mod_meta/mod_reg.go
+++ b/pkg/mods/persist/mod_meta/mod_reg.go
@@ -83,7 +83,12 @@ func regModFile(
 	panicRecover bool) {
 
 	mod := cc.Cmds.GetOrAddSubEx(source, cmdPath...)
+	old := mod.Cmd()
 	cmd := regMod(meta, mod, executablePath, isDir, source)
+	if cmd == old && mod.Source() != source && !cmd.IsTotallyEmpty() {
+		// The cmd path of this dir is a cmd from another source, it should not be changed
+		return
+	}
 	mod.SetSource(source)
 	cmd.SetMetaFile(metaPath)
 
-- 
2.43.0


From 87d52de169599ddba39297c283448efde5b69842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:29 +0000
Subject: [PATCH 21/52] fix: a missing sessions directory crashed ticat instead
 of being reported

The panics carried a string: the handlers take errors only, so the error was
not shown and the exit hooks did not run.
---
 pkg/core/model/session.go | 4 ++--
 pkg/utils/misc.go         | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/core/model/session.go b/pkg/core/model/session.go
index d333351..d23031a 100644
--- a/pkg/core/model/session.go
+++ b/pkg/core/model/session.go
@@ -43,7 +43,7 @@ func ListSessions(
 
 	entrys, err := os.ReadDir(sessionsRoot)
 	if err != nil {
-		panic(fmt.Sprintf("[ListSessions] can't read sessions' root path '%s'\n", sessionsRoot))
+		panic(fmt.Errorf("[ListSessions] can't read sessions' root path '%s'\n", sessionsRoot))
 	}
 	dirs := make([]string, len(entrys))
 	for i, it := range entrys {
@@ -116,7 +116,7 @@ func CleanSessions(env *Env) (cleaned uint, runnings uint) {
 
 	dirs, err := os.ReadDir(sessionsRoot)
 	if err != nil {
-		panic(fmt.Sprintf("[ListSessions] can't read sessions' root path '%s'\n", sessionsRoot))
+		panic(fmt.Errorf("[ListSessions] can't read sessions' root path '%s'\n", sessionsRoot))
 	}
 
 	for _, dir := range dirs {
diff --git a/pkg/utils/misc.go b/pkg/utils/misc.go
index c7838d6..8a0be4f 100644
--- a/pkg/utils/misc.go
+++ b/pkg/utils/misc.go
@@ -112,7 +112,7 @@ func GoRoutineId() int {
 	idField := strings.Fields(strings.TrimPrefix(string(buf[:n]), "goroutine "))[0]
 	id, err := strconv.Atoi(idField)
 	if err != nil {
-		panic(fmt.Sprintf("cannot get goroutine id: %v", err))
+		panic(fmt.Errorf("cannot get goroutine id: %v", err))
 	}
 	return id
 }
-- 
2.43.0


From 6bf14d3ea7b4aa096c7dfd92c53823d8ef0563ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:32 +0000
Subject: [PATCH 22/52] fix: a % in an argument garbled the error message it
 was quoted in

---
 pkg/core/model/errs.go | 2 +-
 pkg/core/parser/env.go | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkg/core/model/errs.go b/pkg/core/model/errs.go
index dab6d8d..f240fa3 100644
--- a/pkg/core/model/errs.go
+++ b/pkg/core/model/errs.go
@@ -14,7 +14,7 @@ func WrapCmdError(cmd ParsedCmd, err error) *CmdError {
 }
 
 func NewCmdError(cmd ParsedCmd, err string) *CmdError {
-	return &CmdError{cmd, fmt.Errorf(err)}
+	return &CmdError{cmd, fmt.Errorf("%s", err)}
 }
 
 func (self CmdError) Error() string {
diff --git a/pkg/core/parser/env.go b/pkg/core/parser/env.go
index 9a6ce2b..25209c7 100644
--- a/pkg/core/parser/env.go
+++ b/pkg/core/parser/env.go
@@ -49,16 +49,16 @@ func (self *EnvParser) TryParse(
 	envStrs, rest, found = self.findRight(rest)
 	if !found {
 		return nil, tryTrimStrings(input), true,
-			fmt.Errorf("[EnvParser.TryParse] unmatched env brackets '" +
-				strings.Join(rest, " ") + "'")
+			fmt.Errorf("[EnvParser.TryParse] unmatched env brackets '%s'",
+				strings.Join(rest, " "))
 	}
 
 	var envRest []string
 	env, envRest = self.TryParseRaw(cmd, envAbbrs, envStrs)
 	if len(envRest) != 0 {
 		return nil, tryTrimStrings(input), true,
-			fmt.Errorf("[EnvParser.TryParse] env difinition can't be recognized '" +
-				strings.Join(envRest, " ") + "'")
+			fmt.Errorf("[EnvParser.TryParse] env difinition can't be recognized '%s'",
+				strings.Join(envRest, " "))
 	}
 
 	return env, tryTrimStrings(rest), true, nil
-- 
2.43.0


From 7cab055be4ce51521c9c862621d208bacb3151fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:18 +0000
Subject: [PATCH 23/52] fix: with tips switched off (display.tips.off) errors
 were not shown either

---
 pkg/cli/display/tip.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/cli/display/tip.go b/pkg/cli/display/tip.go
index 896e065..cdfa2b4 100644
--- a/pkg/cli/display/tip.go
+++ b/pkg/cli/display/tip.go
@@ -126,7 +126,7 @@ func (self *TipBoxPrinter) OutputtedLines() int {
 }
 
 func (self *TipBoxPrinter) Finish() {
-	if !self.env.GetBool("display.tip") {
+	if !self.isErr && !self.env.GetBool("display.tip") {
 		return
 	}
 	colorCode := colorCodeTipDark
-- 
2.43.0


From 487de01d3972cd6b38adf4c272ea7091da70ddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:40 +0000
Subject: [PATCH 24/52] fix: a broken display setting crashed ticat when it
 showed an error, its hooks did not run

---
 pkg/ticat/ticat.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pkg/ticat/ticat.go b/pkg/ticat/ticat.go
index c8b3dee..ed81358 100644
--- a/pkg/ticat/ticat.go
+++ b/pkg/ticat/ticat.go
@@ -200,7 +200,7 @@ func (ticat *TiCat) run(args ...string) bool {
 			return
 		}
 		if env.GetBool("sys.panic.recover") {
-			display.PrintError(ticat.cc, env, recovered.(error))
+			ticat.printError(recovered.(error))
 		}
 		// Exit point: panic
 		ticat.exitEventHook("sys.event.hook.error")
@@ -226,6 +226,16 @@ func (ticat *TiCat) run(args ...string) bool {
 	return succeeded
 }
 
+// The env could be too broken (eg: a display width which is not a number) to show an error properly
+func (ticat *TiCat) printError(err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			ticat.cc.Screen.Error(err.Error() + "\n")
+		}
+	}()
+	display.PrintError(ticat.cc, ticat.Env, err)
+}
+
 func (ticat *TiCat) exitEventHook(hookKeyName string) (ok bool) {
 	env := ticat.Env
 	if len(env.GetRaw("session")) == 0 {
@@ -252,7 +262,7 @@ func (ticat *TiCat) exitEventHook(hookKeyName string) (ok bool) {
 		// Exit point: panic when executing exit-event-hook
 		// TODO: need to check this flag doesn't from user-level persisted env
 		if env.GetBool("sys.panic.recover") {
-			display.PrintError(ticat.cc, env, recovered.(error))
+			ticat.printError(recovered.(error))
 			os.Exit(-2)
 		} else {
 			// Re-throw
-- 
2.43.0


From 96a05ece0dbf4edd8ed1e655a0fb5e57a97fe967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:50 +0000
Subject: [PATCH 25/52] fix: showing the error of a command never ended with a
 display width of 6

---
 pkg/cli/display/tip.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/cli/display/tip.go b/pkg/cli/display/tip.go
index cdfa2b4..f1c820b 100644
--- a/pkg/cli/display/tip.go
+++ b/pkg/cli/display/tip.go
@@ -55,7 +55,7 @@ func NewTipBoxPrinter(screen model.Screen, env *model.Env, isErr bool) *TipBoxPr
 
 func (self *TipBoxPrinter) PrintWrap(msgs ...string) {
 	for _, msg := range msgs {
-		for len(msg) > self.maxWidth {
+		for self.maxWidth > 0 && len(msg) > self.maxWidth {
 			self.Print(msg[0:self.maxWidth])
 			msg = msg[self.maxWidth:]
 		}
-- 
2.43.0


From 9c787cf13e6bc54ab940ffd600a64a7baca3f7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:58 +0000
Subject: [PATCH 26/52] fix: a quiet sub-flow that panics no longer leaves the
 executor display on

---
 pkg/core/model/cmd.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index 60ddf8a..a11150d 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -290,14 +290,11 @@ func (self *Cmd) execute(
 	shouldQuietSubFlow := self.HasSubFlow(true) && self.flags.quietSubFlow
 	if shouldQuietSubFlow {
 		envSession.SetBool(disableQuietKey, false)
+		defer envSession.Set(disableQuietKey, originQuiet)
 	}
 
 	newCurrCmdIdx, succeeded = self.executeByType(argv, cc, env, mask, flow,
 		allowError, currCmdIdx, logFilePath, tryBreakInsideFileNFlow)
-
-	if shouldQuietSubFlow {
-		envSession.Set(disableQuietKey, originQuiet)
-	}
 	return
 }
 
-- 
2.43.0


From edf79ff0cf3e15c7af1cd0864e033e3b23fa1d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:58 +0000
Subject: [PATCH 27/52] fix: the stack of a nested flow that failed is undone
 when the failure is tolerated

---
 pkg/core/execute/executor.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index f8b83ed..d5cdaa9 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -83,7 +83,7 @@ func (self *Executor) Execute(caller string, innerCall bool, cc *model.Cli, env
 }
 
 func (self *Executor) execute(caller string, cc *model.Cli, env *model.Env, masks []*model.ExecuteMask,
-	bootstrap bool, innerCall bool, input ...string) bool {
+	bootstrap bool, innerCall bool, input ...string) (succeeded bool) {
 
 	if !innerCall && env.GetBool("sys.env.use-cmd-abbrs") {
 		useCmdsAbbrs(cc.EnvAbbrs, cc.Cmds)
@@ -171,7 +171,13 @@ func (self *Executor) execute(caller string, cc *model.Cli, env *model.Env, mask
 	}
 
 	if !bootstrap && !crossProcessInnerCall {
-		stackStepIn(caller, env)
+		restore := stackStepIn(caller, env)
+		// A tolerated failure goes on in the outer flow, the stack should be the outer one's then
+		defer func() {
+			if !succeeded {
+				restore()
+			}
+		}()
 	}
 	if !self.executeFlow(cc, bootstrap, flow, env, masks, input) {
 		return false
@@ -444,16 +450,22 @@ func useEnvAbbrs(abbrs *model.EnvAbbrs, env *model.Env, sep string) {
 	}
 }
 
-func stackStepIn(caller string, env *model.Env) {
+func stackStepIn(caller string, env *model.Env) (restore func()) {
 	env = env.GetLayer(model.EnvLayerSession)
+	depth := env.GetInt("sys.stack-depth")
+	stack := env.GetRaw("sys.stack")
+	restore = func() {
+		env.SetInt("sys.stack-depth", depth)
+		env.Set("sys.stack", stack)
+	}
 	env.PlusInt("sys.stack-depth", 1)
 	sep := env.GetRaw("strs.list-sep")
-	stack := env.GetRaw("sys.stack")
 	if len(stack) == 0 {
 		env.Set("sys.stack", caller)
 	} else {
 		env.Set("sys.stack", stack+sep+caller)
 	}
+	return
 }
 
 func stackStepOut(caller string, callerNameEntry string, env *model.Env) {
-- 
2.43.0


From a38f17248fcd779a36a24f970829c15a88dbde90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:58 +0000
Subject: [PATCH 28/52] fix: forest-mode ends with its flow whether the flow
 failed or not

---
 pkg/core/execute/executor.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index d5cdaa9..7e77abe 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -196,6 +196,13 @@ func (self *Executor) executeFlow(
 	masks []*model.ExecuteMask,
 	input []string) bool {
 
+	// The flow leaves forest-mode whether it failed or not
+	defer func() {
+		if cc.ForestMode.AtForestTopLvl(env) {
+			cc.ForestMode.Pop(env)
+		}
+	}()
+
 	breakAtNext := false
 	for i := 0; i < len(flow.Cmds); i++ {
 		cmd := flow.Cmds[i]
@@ -214,9 +221,6 @@ func (self *Executor) executeFlow(
 			return false
 		}
 	}
-	if cc.ForestMode.AtForestTopLvl(env) {
-		cc.ForestMode.Pop(env)
-	}
 	return true
 }
 
-- 
2.43.0


From e430177f25b0d4700cac665ba3e8e117e01ff8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:10 +0000
Subject: [PATCH 29/52] fix: the stack of a hook is gone when the hook is done

---
 pkg/core/execute/executor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 7e77abe..7ff8fa2 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -486,6 +486,7 @@ func stackStepOut(caller string, callerNameEntry string, env *model.Env) {
 				panic(fmt.Errorf("stack string not match when stepping out from '%s', stack: '%s'",
 					caller, stack))
 			}
+			stack = ""
 		}
 	} else {
 		stack = stack[0 : len(stack)-len(sep)-len(caller)]
-- 
2.43.0


From 380f9064f985acc7e49b824b1c30f74556449c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:43 +0000
Subject: [PATCH 30/52] fix: an escaped ':' at the end of a word made the
 parser read past it

---
 pkg/core/parser/sequence.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/core/parser/sequence.go b/pkg/core/parser/sequence.go
index cda7e53..10897b6 100644
--- a/pkg/core/parser/sequence.go
+++ b/pkg/core/parser/sequence.go
@@ -43,6 +43,7 @@ func (self *SequenceParser) Normalize(argv []string) []string {
 			//  2. this is a workaround, we also need to handle '\\', '\\\', ... things like that
 			if searchIdx >= 1 && "\\" == arg[searchIdx-1:searchIdx] {
 				arg = arg[0:searchIdx-1] + arg[searchIdx:]
+				searchIdx -= 1
 				continue
 			}
 			unbreakable := false
-- 
2.43.0


From 31d4c05b2abf8570bcd2e273dca70e268ab6751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:55 +0000
Subject: [PATCH 31/52] fix: an env definition ending in 'key= value=x' crashed
 or was silently cut

---
 pkg/core/parser/env.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/core/parser/env.go b/pkg/core/parser/env.go
index 25209c7..cf97466 100644
--- a/pkg/core/parser/env.go
+++ b/pkg/core/parser/env.go
@@ -79,7 +79,9 @@ func (self *EnvParser) TryParseRaw(
 		}
 		originIdx := normalized.originIdx[normalizedIdx]
 		originStrIdx := normalized.originStrIdx[normalizedIdx]
-		return tryTrimStrings(input[originIdx:][originStrIdx:])
+		unparsed := append([]string{}, input[originIdx:]...)
+		unparsed[0] = unparsed[0][originStrIdx:]
+		return tryTrimStrings(unparsed)
 	}
 
 	// It's non-args env definition
-- 
2.43.0


From a379302814f98c2a8aa922f7e38589b57c3e2ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:26 +0000
Subject: [PATCH 32/52] fix: a multiply template with an overlapping '[[*]]'
 crashed the flow

---
 pkg/core/model/template.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkg/core/model/template.go b/pkg/core/model/template.go
index 7b6686f..095bb05 100644
--- a/pkg/core/model/template.go
+++ b/pkg/core/model/template.go
@@ -77,24 +77,26 @@ func tryRenderMultiplyTemplate(
 		return
 	}
 
-	valEnd := strings.Index(in[valBegin:], mr)
-	if valEnd <= 0 {
+	keyBegin := valBegin + len(ml)
+	valEnd := strings.Index(in[keyBegin:], mr)
+	if valEnd < 0 {
 		return
 	}
-	valEnd += valBegin
+	valEnd += keyBegin
 
 	tempBegin := strings.Index(in[:valBegin], mm)
 	if tempBegin < 0 {
 		return
 	}
 
-	tempEnd := strings.Index(in[valEnd:], mm)
+	tailBegin := valEnd + len(mr)
+	tempEnd := strings.Index(in[tailBegin:], mm)
 	if tempEnd < 0 {
 		return
 	}
-	tempEnd += valEnd
+	tempEnd += tailBegin
 
-	key := strings.TrimSpace(in[valBegin+len(ml) : valEnd])
+	key := strings.TrimSpace(in[keyBegin:valEnd])
 
 	var valStr string
 	val, ok := env.GetEx(key)
@@ -118,7 +120,7 @@ func tryRenderMultiplyTemplate(
 	}
 
 	head := in[tempBegin+len(mm) : valBegin]
-	tail := in[valEnd+len(mr) : tempEnd]
+	tail := in[tailBegin:tempEnd]
 
 	vals := strings.Split(valStr, listSep)
 	for _, val := range vals {
-- 
2.43.0


From bb1c07d10b21838701e1fe01e837380a1c4f5ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:27 +0000
Subject: [PATCH 33/52] fix: echo crashed on a message starting with '#'

---
 pkg/mods/builtin/dbg.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/dbg.go b/pkg/mods/builtin/dbg.go
index c0f4a2d..e3345aa 100644
--- a/pkg/mods/builtin/dbg.go
+++ b/pkg/mods/builtin/dbg.go
@@ -23,7 +23,10 @@ func DbgEcho(
 	color := argv.GetRaw("color")
 
 	rendered, _ := model.RenderTemplateStrLines([]string{msg}, "echo", flow.Cmds[currCmdIdx].LastCmd(), model.ArgVals{}, env, true)
-	str := rendered[0]
+	str := msg
+	if len(rendered) != 0 {
+		str = rendered[0]
+	}
 	str = display.ColorStrByName(str, color, env)
 
 	cc.Screen.Print(fmt.Sprintf("%v\n", str))
-- 
2.43.0


From 10f9a968844714bcb50fe6ab95fec030aa84b891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:29 +0000
Subject: [PATCH 34/52] fix: a file in the place of a module dir crashed every
 run

---
 pkg/mods/builtin/mod.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/mods/builtin/mod.go b/pkg/mods/builtin/mod.go
index 58add03..06ff6c0 100644
--- a/pkg/mods/builtin/mod.go
+++ b/pkg/mods/builtin/mod.go
@@ -57,6 +57,10 @@ func loadLocalMods(
 			}
 			return nil
 		}
+		// A file in the place where the root dir was
+		if metaPath == root {
+			return nil
+		}
 		if metaPath == filepath.Join(root, reposFileName) {
 			return nil
 		}
-- 
2.43.0


From ef1bb416f4e6d95826a753c484436f7e4f151161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:08 +0000
Subject: [PATCH 35/52] fix: a runner setting of blanks only crashed the
 commands using it

---
 pkg/core/model/cmd.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/core/model/cmd.go b/pkg/core/model/cmd.go
index a11150d..503eced 100644
--- a/pkg/core/model/cmd.go
+++ b/pkg/core/model/cmd.go
@@ -1001,7 +1001,7 @@ func (self *Cmd) executeFile(argv ArgVals, cc *Cli, env *Env, allowError bool, p
 	ext := filepath.Ext(self.cmdLine)
 
 	// TODO: move this code block out?
-	runner := env.Get("sys.ext.exec" + ext).Raw
+	runner := strings.TrimSpace(env.Get("sys.ext.exec" + ext).Raw)
 	if len(runner) != 0 {
 		fields := strings.Fields(runner)
 		if len(fields) == 1 {
-- 
2.43.0


From f2f287e5d70fe48f7f56d8b414fb4877fa1e387c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:39 +0000
Subject: [PATCH 36/52] fix: showing a deeply nested command with a log crashed

---
 pkg/cli/display/flow.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/cli/display/flow.go b/pkg/cli/display/flow.go
index 218e132..c7f200a 100644
--- a/pkg/cli/display/flow.go
+++ b/pkg/cli/display/flow.go
@@ -425,6 +425,11 @@ func dumpCmdExecutedLog(
 	}
 	prt(2, mayTrimStr(executedCmd.LogFilePath, env, limit))
 
+	// The flow could be nested so deep that no space is left
+	if limit < 4 {
+		limit = 4
+	}
+
 	displayLogLines := 8
 	if args.MonitorMode {
 		displayLogLines = 3
@@ -443,7 +448,7 @@ func dumpCmdExecutedLog(
 			return -1
 		}, line)
 		line = stripTermStyle(line)
-		if len(line) > 2*lineLimit {
+		if len(line) > 2*lineLimit && len(line) > limit {
 			line = line[0:limit]
 		}
 		for {
-- 
2.43.0


From e8ba3c865056678ad696e9fbf2b4da072a62580a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:57 +0000
Subject: [PATCH 37/52] fix: join.new never ended on a range with a step which
 is not positive

---
 pkg/mods/builtin/join.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/mods/builtin/join.go b/pkg/mods/builtin/join.go
index 602f8f4..f0fdef9 100644
--- a/pkg/mods/builtin/join.go
+++ b/pkg/mods/builtin/join.go
@@ -53,6 +53,10 @@ func JoinNew(
 			start, _ := strconv.ParseFloat(startStr, 64)
 			end, _ := strconv.ParseFloat(endStr, 64)
 			step, _ := strconv.ParseFloat(stepStr, 64)
+			if !(step > 0) {
+				panic(model.NewCmdError(flow.Cmds[currCmdIdx],
+					fmt.Sprintf("the step of range '%s' should be larger than 0", val)))
+			}
 			for ; start <= end; start += step {
 				vals = append(vals, fmt.Sprintf("%f", start))
 			}
@@ -60,6 +64,10 @@ func JoinNew(
 			start, _ := strconv.Atoi(startStr)
 			end, _ := strconv.Atoi(endStr)
 			step, _ := strconv.Atoi(stepStr)
+			if step <= 0 {
+				panic(model.NewCmdError(flow.Cmds[currCmdIdx],
+					fmt.Sprintf("the step of range '%s' should be larger than 0", val)))
+			}
 			for ; start <= end; start += step {
 				vals = append(vals, strconv.Itoa(start))
 			}
-- 
2.43.0


From fee3fc842dab2756d6f497512c419b1372d72109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:58 +0000
Subject: [PATCH 38/52] fix: join.run crashed on a range without values

---
 pkg/mods/builtin/join.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/mods/builtin/join.go b/pkg/mods/builtin/join.go
index f0fdef9..b8f0f15 100644
--- a/pkg/mods/builtin/join.go
+++ b/pkg/mods/builtin/join.go
@@ -118,6 +118,12 @@ func JoinRun(
 		panic(model.NewCmdError(flow.Cmds[currCmdIdx],
 			"can't execute null ticat command"))
 	}
+	for _, kv := range kvs {
+		if len(kv.Vals) == 0 {
+			panic(model.NewCmdError(flow.Cmds[currCmdIdx],
+				fmt.Sprintf("key '%s' has no values to run with", kv.Key)))
+		}
+	}
 	iter := newJoinKvsIter(kvs)
 	for {
 		args := []string{cmd}
-- 
2.43.0


From 0480eb286b94dc8d48d2a2405e0fc42fd6967e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:32 +0000
Subject: [PATCH 39/52] fix: env snapshots were listed with cut names, or
 crashed, if their dir was set with a tailing '/'

---
 pkg/mods/builtin/env_snapshot.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mods/builtin/env_snapshot.go b/pkg/mods/builtin/env_snapshot.go
index 1f73c0d..0fe802b 100644
--- a/pkg/mods/builtin/env_snapshot.go
+++ b/pkg/mods/builtin/env_snapshot.go
@@ -84,7 +84,7 @@ func EnvListSnapshots(
 		panic(model.NewCmdError(cmd, "env value 'strs.env-snapshot-ext' is empty"))
 	}
 
-	root := getEnvSnapshotDir(env)
+	root := filepath.Clean(getEnvSnapshotDir(env))
 	var names []string
 
 	filepath.Walk(root, func(path string, info fs.FileInfo, err error) error {
-- 
2.43.0


From 32253506caac4e510c765f65e88c0789b6a934d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:04 +0000
Subject: [PATCH 40/52] fix: a word between the name and the value of a sys-arg
 was dropped silently

---
 pkg/core/parser/env.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/core/parser/env.go b/pkg/core/parser/env.go
index cf97466..5677bfb 100644
--- a/pkg/core/parser/env.go
+++ b/pkg/core/parser/env.go
@@ -140,6 +140,9 @@ func (self *EnvParser) TryParseRaw(
 		}
 	} else {
 		for ; i+2 < len(rest); i += 3 {
+			if rest[i+1] != self.kvSep {
+				return tryTrimParsedEnv(env), genResult(i)
+			}
 			value := rest[i+2]
 			key, normalized := model.SysArgRealnameAndNormalizedValue(rest[i], self.sysArgPrefix, value)
 			if len(key) != 0 {
@@ -147,7 +150,7 @@ func (self *EnvParser) TryParseRaw(
 				continue
 			}
 			key = args.Realname(rest[i])
-			if len(key) == 0 || rest[i+1] != self.kvSep {
+			if len(key) == 0 {
 				return tryTrimParsedEnv(env), genResult(i)
 			}
 			env[key] = model.NewParsedEnvArgv(rest[i], value)
-- 
2.43.0


From 8158340d034dcf252aacb0d8b6475c10081728b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:17 +0000
Subject: [PATCH 41/52] fix: a saved key named like an abbr of another one
 ended every later run

---
 pkg/core/execute/executor.go | 10 +++++++++-
 pkg/core/model/env_abbr.go   |  6 ++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 7ff8fa2..7715948 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -449,7 +449,15 @@ func useEnvAbbrs(abbrs *model.EnvAbbrs, env *model.Env, sep string) {
 	for k, _ := range env.Flatten(true, nil, true) {
 		curr := abbrs
 		for _, seg := range strings.Split(k, sep) {
-			curr = curr.GetOrAddSub(seg)
+			sub := curr.GetSub(seg)
+			if sub == nil {
+				// An abbr of another key can't be a name, this key could only be used as it is
+				if curr.HasSubAbbr(seg) {
+					break
+				}
+				sub = curr.AddSub(seg)
+			}
+			curr = sub
 		}
 	}
 }
diff --git a/pkg/core/model/env_abbr.go b/pkg/core/model/env_abbr.go
index d40a378..7960360 100644
--- a/pkg/core/model/env_abbr.go
+++ b/pkg/core/model/env_abbr.go
@@ -119,6 +119,12 @@ func (self *EnvAbbrs) GetSub(name string) *EnvAbbrs {
 	return sub
 }
 
+// If the word is the name or an abbr of a sub-node
+func (self *EnvAbbrs) HasSubAbbr(abbr string) bool {
+	_, ok := self.subAbbrsRevIdx[abbr]
+	return ok
+}
+
 func (self *EnvAbbrs) Path() []string {
 	if self.parent == nil {
 		return []string{}
-- 
2.43.0


From b310478d82884daad8e99f21099cfdad137dae3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:18 +0000
Subject: [PATCH 42/52] fix: command abbrs that are taken as abbrs of keys
 ended every run if they were in use

---
 pkg/core/execute/executor.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 7715948..04d0426 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -433,12 +433,19 @@ func useCmdsAbbrs(abbrs *model.EnvAbbrs, cmds *model.CmdTree) {
 		return
 	}
 	for _, subName := range cmds.SubNames() {
-		subAbbrs := cmds.SubAbbrs(subName)
 		subEnv := abbrs.GetSub(subName)
 		if subEnv == nil {
-			subEnv = abbrs.AddSub(subName, subAbbrs...)
-		} else {
-			abbrs.AddSubAbbrs(subName, subAbbrs...)
+			// The name is an abbr of another key already
+			if abbrs.HasSubAbbr(subName) {
+				continue
+			}
+			subEnv = abbrs.AddSub(subName)
+		}
+		for _, abbr := range cmds.SubAbbrs(subName) {
+			// What is taken keeps its meaning
+			if !abbrs.HasSubAbbr(abbr) {
+				abbrs.AddSubAbbrs(subName, abbr)
+			}
 		}
 		subTree := cmds.GetSub(subName)
 		useCmdsAbbrs(subEnv, subTree)
-- 
2.43.0


From 52b846748f10c0dc720ff434497cf4448399fa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:01 +0000
Subject: [PATCH 43/52] fix: abbrs of env keys were registered in a random
 order

---
 pkg/core/execute/executor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/core/execute/executor.go b/pkg/core/execute/executor.go
index 04d0426..611e6be 100644
--- a/pkg/core/execute/executor.go
+++ b/pkg/core/execute/executor.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 	"time"
 
@@ -453,7 +454,12 @@ func useCmdsAbbrs(abbrs *model.EnvAbbrs, cmds *model.CmdTree) {
 }
 
 func useEnvAbbrs(abbrs *model.EnvAbbrs, env *model.Env, sep string) {
+	var keys []string
 	for k, _ := range env.Flatten(true, nil, true) {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	for _, k := range keys {
 		curr := abbrs
 		for _, seg := range strings.Split(k, sep) {
 			sub := curr.GetSub(seg)
-- 
2.43.0


From cb409ffcb9909529b9bfd586aac1718cd885685a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:01 +0000
Subject: [PATCH 44/52] fix: the env of a command was recorded in a random
 order

---
 pkg/core/model/executing.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/core/model/executing.go b/pkg/core/model/executing.go
index 0bdeaea..e71126d 100644
--- a/pkg/core/model/executing.go
+++ b/pkg/core/model/executing.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"os"
+	"sort"
 	"strings"
 	"time"
 )
@@ -195,8 +196,13 @@ func writeCmdEnv(w io.Writer, env *Env, mark string, level int) {
 	kvs := env.Flatten(false, filterPrefixs, true)
 	buf := bytes.NewBuffer(nil)
 	indent := strings.Repeat(StatusFileIndent, level)
-	for k, v := range kvs {
-		fprintf(buf, "%s%s=%s\n", indent, k, v)
+	var keys []string
+	for k, _ := range kvs {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	for _, k := range keys {
+		fprintf(buf, "%s%s=%s\n", indent, k, kvs[k])
 	}
 	if len(kvs) > 0 {
 		fprintf(w, "%s\n%s%s\n", markStartStr(mark, level), buf.String(), markFinishStr(mark, level))
-- 
2.43.0


From 6b96d61b187cdcab44b79f4ae403e41c5e6f904d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:01 +0000
Subject: [PATCH 45/52] fix: completion candidates were given in a random order

---
 pkg/core/model/cmds.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/cmds.go b/pkg/core/model/cmds.go
index 16aa5b9..c0ccf1d 100644
--- a/pkg/core/model/cmds.go
+++ b/pkg/core/model/cmds.go
@@ -2,6 +2,7 @@ package model
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 )
 
@@ -162,17 +163,21 @@ func (self *CmdTree) GatherSubNames(includeAbbrs bool, includeShortcuts bool) (n
 			names = append(names, sub)
 		}
 	}
+	sort.Strings(names)
 	if includeAbbrs {
+		var abbrNames []string
 		for _, abbrs := range self.subAbbrs {
 			for _, abbr := range abbrs {
 				if _, ok := self.subs[abbr]; ok {
 					continue
 				}
 				if includeShortcuts || !isShortcutCmdName(abbr) {
-					names = append(names, abbr)
+					abbrNames = append(abbrNames, abbr)
 				}
 			}
 		}
+		sort.Strings(abbrNames)
+		names = append(names, abbrNames...)
 	}
 	return names
 }
-- 
2.43.0


From 7c28aa077f5928b0e4663837dc98256a1c1eeea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:01 +0000
Subject: [PATCH 46/52] fix: dependents, conflicts and sys-args were listed in
 a random order

---
 pkg/cli/display/args.go | 11 +++++++++--
 pkg/cli/display/dep.go  | 10 +++++++++-
 pkg/cli/display/err.go  | 24 +++++++++++++++++++++---
 3 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/pkg/cli/display/args.go b/pkg/cli/display/args.go
index 7395118..304ff95 100644
--- a/pkg/cli/display/args.go
+++ b/pkg/cli/display/args.go
@@ -1,6 +1,8 @@
 package display
 
 import (
+	"sort"
+
 	"github.com/innerr/ticat/pkg/core/model"
 )
 
@@ -23,8 +25,13 @@ func DumpProvidedArgs(env *model.Env, args *model.Args, argv model.ArgVals, colo
 }
 
 func DumpSysArgs(env *model.Env, sysArgv model.SysArgVals, colorize bool) (output []string) {
-	for k, v := range sysArgv {
-		v = mayMaskSensitiveVal(env, k, v)
+	var keys []string
+	for k, _ := range sysArgv {
+		keys = append(keys, k)
+	}
+	sort.Strings(keys)
+	for _, k := range keys {
+		v := mayMaskSensitiveVal(env, k, sysArgv[k])
 		if colorize {
 			line := ColorExplain("[sys] ", env) + ColorArg(k, env) +
 				ColorSymbol(" = ", env) + mayQuoteStr(v)
diff --git a/pkg/cli/display/dep.go b/pkg/cli/display/dep.go
index a7d8dff..df65caa 100644
--- a/pkg/cli/display/dep.go
+++ b/pkg/cli/display/dep.go
@@ -54,8 +54,16 @@ func DumpDepends(
 		cmds := deps[osCmd]
 		screen.Print(ColorCmd(fmt.Sprintf("[%s]\n", osCmd), env))
 
-		// TODO: sort cmds
+		var infos []model.DependInfo
 		for _, info := range cmds {
+			infos = append(infos, info)
+		}
+		sort.Slice(infos, func(i, j int) bool {
+			lhs := infos[i].Cmd.DisplayPath(sep, true)
+			rhs := infos[j].Cmd.DisplayPath(sep, true)
+			return lhs < rhs || lhs == rhs && infos[i].Reason < infos[j].Reason
+		})
+		for _, info := range infos {
 			screen.Print("        " + ColorHelp(fmt.Sprintf("'%s'\n", info.Reason), env))
 			screen.Print("            " + ColorCmd(fmt.Sprintf("[%s]\n", info.Cmd.DisplayPath(sep, true)), env))
 		}
diff --git a/pkg/cli/display/err.go b/pkg/cli/display/err.go
index 81408ef..7259d73 100644
--- a/pkg/cli/display/err.go
+++ b/pkg/cli/display/err.go
@@ -2,6 +2,7 @@ package display
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/innerr/ticat/pkg/core/model"
@@ -138,7 +139,8 @@ func PrintTolerableErrs(screen model.Screen, env *model.Env, errs *model.Tolerab
 
 	sep := env.GetRaw("strs.cmd-path-sep")
 
-	for newSource, list := range errs.ConflictedWithBuiltin {
+	for _, newSource := range sortedSources(errs.ConflictedWithBuiltin) {
+		list := errs.ConflictedWithBuiltin[newSource]
 		if len(list) > 8 {
 			PrintErrTitle(screen, env,
 				fmt.Sprintf("this repo/dir has too many (%v) conflicts with builtin commands:", len(list)),
@@ -164,8 +166,16 @@ func PrintTolerableErrs(screen model.Screen, env *model.Env, errs *model.Tolerab
 		}
 	}
 
-	for oldSource, conflicteds := range errs.Conflicteds {
-		for newSource, list := range conflicteds {
+	var oldSources []string
+	for oldSource, _ := range errs.Conflicteds {
+		oldSources = append(oldSources, oldSource)
+	}
+	sort.Strings(oldSources)
+
+	for _, oldSource := range oldSources {
+		conflicteds := errs.Conflicteds[oldSource]
+		for _, newSource := range sortedSources(conflicteds) {
+			list := conflicteds[newSource]
 			if len(list) > 8 {
 				PrintErrTitle(screen, env,
 					fmt.Sprintf("too many (%v) conflicts between these two repos/dirs:", len(list)),
@@ -194,3 +204,11 @@ func PrintTolerableErrs(screen model.Screen, env *model.Env, errs *model.Tolerab
 		}
 	}
 }
+
+func sortedSources(conflicteds model.ConflictedWithSameSource) (sources []string) {
+	for source, _ := range conflicteds {
+		sources = append(sources, source)
+	}
+	sort.Strings(sources)
+	return
+}
-- 
2.43.0


From 0f3dd610bac349365eaa4e05d023c8da5d2d85b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:01 +0000
Subject: [PATCH 47/52] fix: breakpoints and deleted keys were listed in a
 random order

---
 pkg/mods/builtin/dbg.go | 13 +++++++++++--
 pkg/mods/builtin/env.go | 12 ++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/mods/builtin/dbg.go b/pkg/mods/builtin/dbg.go
index e3345aa..50dde53 100644
--- a/pkg/mods/builtin/dbg.go
+++ b/pkg/mods/builtin/dbg.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"os"
 	"os/exec"
+	"sort"
 	"strings"
 
 	"github.com/innerr/ticat/pkg/cli/display"
@@ -168,7 +169,7 @@ func DbgBreakStatus(
 
 	if len(bps.Befores) != 0 {
 		cc.Screen.Print(fmt.Sprintf(display.ColorTip("    break before one of the commands:\n", env)))
-		for k, _ := range bps.Befores {
+		for _, k := range sortedBreakPoints(bps.Befores) {
 			k = display.ColorCmd("["+k+"]", env)
 			cc.Screen.Print(fmt.Sprintf("        %s\n", k))
 		}
@@ -176,7 +177,7 @@ func DbgBreakStatus(
 
 	if len(bps.Afters) != 0 {
 		cc.Screen.Print(fmt.Sprintf(display.ColorTip("    break when one of the commands finishs:\n", env)))
-		for k, _ := range bps.Afters {
+		for _, k := range sortedBreakPoints(bps.Afters) {
 			k = display.ColorCmd("["+k+"]", env)
 			cc.Screen.Print(fmt.Sprintf("        %s\n", k))
 		}
@@ -198,6 +199,14 @@ func DbgBreakStatus(
 	return currCmdIdx, true
 }
 
+func sortedBreakPoints(cmds map[string]bool) (names []string) {
+	for name, _ := range cmds {
+		names = append(names, name)
+	}
+	sort.Strings(names)
+	return
+}
+
 func DbgInteractLeave(
 	argv model.ArgVals,
 	cc *model.Cli,
diff --git a/pkg/mods/builtin/env.go b/pkg/mods/builtin/env.go
index 95efeba..b6784f2 100644
--- a/pkg/mods/builtin/env.go
+++ b/pkg/mods/builtin/env.go
@@ -5,6 +5,7 @@ import (
 	"math"
 	"os"
 	"path/filepath"
+	"sort"
 	"strings"
 
 	"github.com/innerr/ticat/pkg/cli/display"
@@ -215,11 +216,14 @@ func RemoveEnvValHavePrefixNotSave(
 
 	prefix := getAndCheckArg(argv, flow.Cmds[currCmdIdx], "prefix")
 
-	keyVals := env.FlattenAll()
-	for key, _ := range keyVals {
-		if !strings.HasPrefix(key, prefix) {
-			continue
+	var keys []string
+	for key, _ := range env.FlattenAll() {
+		if strings.HasPrefix(key, prefix) {
+			keys = append(keys, key)
 		}
+	}
+	sort.Strings(keys)
+	for _, key := range keys {
 		keyStr := display.ColorKey("'"+key+"'", env)
 		env.DeleteEx(key, model.EnvLayerDefault)
 		cc.Screen.Print(keyStr + " deleted\n")
-- 
2.43.0


From 8101ab431b53fe70ed475ffd379b7905baebf45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:01 +0000
Subject: [PATCH 48/52] fix: args were mapped to env automatically in a random
 order of commands

---
 pkg/core/model/args_auto_map.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/core/model/args_auto_map.go b/pkg/core/model/args_auto_map.go
index 6a1e9e7..1b3e5e7 100644
--- a/pkg/core/model/args_auto_map.go
+++ b/pkg/core/model/args_auto_map.go
@@ -14,7 +14,14 @@ func (self Arg2EnvAutoMapCmds) AddAutoMapTarget(cmd *Cmd) {
 
 func (self Arg2EnvAutoMapCmds) AutoMapArg2Env(cc *Cli, env *Env, envOpCmds []EnvOpCmd, stackDepth int) {
 	sep := env.GetRaw("strs.cmd-path-sep")
+	var cmds []*Cmd
 	for cmd, _ := range self {
+		cmds = append(cmds, cmd)
+	}
+	sort.Slice(cmds, func(i, j int) bool {
+		return cmds[i].Owner().DisplayPath() < cmds[j].Owner().DisplayPath()
+	})
+	for _, cmd := range cmds {
 		argv := env.GetArgv(cmd.Owner().Path(), sep, stackDepth, cmd.Args())
 		autoMapArg2EnvForCmd(cc, env.Clone(), cmd, argv, envOpCmds, cmd, stackDepth)
 		cmd.FinishArg2EnvAutoMap(cc)
-- 
2.43.0


From 1591a709c778bc7a1c7e0ccdc933220dca6cf570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:04 +0000
Subject: [PATCH 49/52] fix: an env key in the brackets of a command got lost
 at random

---
 pkg/core/model/parsing.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/core/model/parsing.go b/pkg/core/model/parsing.go
index daedb31..7b02b8f 100644
--- a/pkg/core/model/parsing.go
+++ b/pkg/core/model/parsing.go
@@ -384,6 +384,11 @@ func (self ParsedEnv) AddPrefix(prefix []string, sep string) {
 		vals = append(vals, v)
 	}
 
+	// A new name could be the old name of another one, so remove all before adding
+	for _, k := range keys {
+		delete(self, k)
+	}
+
 	prefixPath := strings.Join(prefix, sep) + sep
 	for i, k := range keys {
 		v := vals[i]
@@ -395,7 +400,6 @@ func (self ParsedEnv) AddPrefix(prefix []string, sep string) {
 		}
 		matchedPath := append(prefixClone, v.MatchedPath...)
 		self[prefixPath+k] = ParsedEnvVal{v.Val, v.IsArg, v.IsSysArg, matchedPath, strings.Join(matchedPath, sep)}
-		delete(self, k)
 		v = self[prefixPath+k]
 
 		// If not deep copy, the v.MatchedPath will be the last value of this loop
-- 
2.43.0


From ff113fed5f0dc7c8c4941f9ec60087d59267f710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:24 +0000
Subject: [PATCH 50/52] fix: tail-sub ignored its 'tag' arg and read 'source',
 which it does not declare

---
 pkg/mods/builtin/dump_cmds.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/mods/builtin/dump_cmds.go b/pkg/mods/builtin/dump_cmds.go
index 94403d2..9e06693 100644
--- a/pkg/mods/builtin/dump_cmds.go
+++ b/pkg/mods/builtin/dump_cmds.go
@@ -133,9 +133,12 @@ func dumpTailCmdSub(
 		dumpArgs.AddFindStrs(findStrs...)
 	}
 
-	source := argv.GetRaw("source")
-	if len(source) != 0 {
-		dumpArgs.SetSource(source)
+	tag := argv.GetRaw("tag")
+	if len(tag) != 0 {
+		if len(findStrs) != 0 {
+			panic(model.NewCmdError(flow.Cmds[currCmdIdx], "not support mix-search with tag and keywords now"))
+		}
+		dumpArgs.AddFindStrs(tag).SetFindByTags()
 	}
 
 	if len(argv.GetRaw("depth")) != 0 {
-- 
2.43.0


From a133bcbe20d30f9670aaa34641531e1eaec9c654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:24 +0000
Subject: [PATCH 51/52] fix: with several replacing rules a command of the flow
 was run more than once

---
 pkg/core/model/blender.go | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/pkg/core/model/blender.go b/pkg/core/model/blender.go
index cc80245..53e7952 100644
--- a/pkg/core/model/blender.go
+++ b/pkg/core/model/blender.go
@@ -155,29 +155,29 @@ func (self *Blender) Invoke(cc *Cli, env *Env, flow *ParsedCmds) (changed bool)
 		originDeleted := false
 		originPosDelta := 0
 		addedCmdCnt := 0
+		cmdsInPlace := []ParsedCmd{parsedCmd}
 		for j := 0; j < len(self.invokers); j++ {
 			invoker := self.invokers[j]
 			cmds, deleted, posDelta, finished := invoker.Invoke(parsedCmd)
+			if !deleted && len(cmds) == 1 {
+				// This invoker is not for the command, try the next one
+				continue
+			}
 			if finished {
 				if j == len(self.invokers)-1 {
 					self.invokers = self.invokers[0:j]
 				} else {
 					self.invokers = append(self.invokers[0:j], self.invokers[j+1:]...)
 				}
-				j += 1
 			}
 
-			addedCmdCnt += len(cmds) - 1
-			if len(cmds) > 0 {
-				result = append(result, cmds...)
-			}
-			if deleted {
-				originDeleted = true
-				break
-			} else {
-				originPosDelta += posDelta
-			}
+			addedCmdCnt = len(cmds) - 1
+			cmdsInPlace = cmds
+			originDeleted = deleted
+			originPosDelta = posDelta
+			break
 		}
+		result = append(result, cmdsInPlace...)
 
 		if originDeleted || originPosDelta != 0 {
 			changed = true
-- 
2.43.0


From b83a8a90f6b97abc46475c53d5064f1b3a3fbfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:29 +0000
Subject: [PATCH 52/52] fix: descriptions of flows showed the values of
 sensitive args (a password) unmasked

---
 pkg/cli/display/args.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/cli/display/args.go b/pkg/cli/display/args.go
index 304ff95..e2c18fd 100644
--- a/pkg/cli/display/args.go
+++ b/pkg/cli/display/args.go
@@ -57,7 +57,7 @@ func DumpEffectedArgs(
 		line := ColorArg(k, env) + " " + ColorSymbol("=", env) + " "
 		v, provided := argv[k]
 		if provided && v.Provided {
-			line += mayQuoteStr(v.Raw)
+			line += mayQuoteStr(mayMaskSensitiveVal(env, k, v.Raw))
 		} else {
 			if len(defV) == 0 {
 				continue
@@ -70,7 +70,7 @@ func DumpEffectedArgs(
 			if hasMapping && writtenKeys[key] {
 				continue
 			}
-			line += mayQuoteStr(defV)
+			line += mayQuoteStr(mayMaskSensitiveVal(env, k, defV))
 		}
 		output = append(output, line)
 	}
-- 
2.43.0

