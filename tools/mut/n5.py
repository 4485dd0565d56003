from m import batch
E='pkg/core/execute/executor.go'; C='pkg/core/model/cmd.go'
batch([
('x-tailverify','C02',E,"		if !flow.TailModeCall && !verifyEnvOps(cc, flow, env) {","		if !flow.TailModeCall && !flow.HasTailMode && !verifyEnvOps(cc, flow, env) {"),
('x-osdeps','C02',E,"		if !flow.TailModeCall && (firstCmd == nil || !firstCmd.ShouldIgnoreFollowingDeps()) {","		if !flow.TailModeCall && firstCmd != nil && !firstCmd.ShouldIgnoreFollowingDeps() {"),
('x-parseerr','C16,C02',E,"		if !display.HandleParseResult(cc, flow, env, isSearch) {\n			return false","		if !display.HandleParseResult(cc, flow, env, isSearch) && !bootstrap {\n			return false"),
('x-toler','C12',E,"	display.PrintTolerableErrs(cc.Screen, env, cc.TolerableErrs)\n","	if !innerCall {\n		display.PrintTolerableErrs(cc.Screen, env, cc.TolerableErrs)\n	}\n"),
('x-mask','C03',E,"		if i < len(masks) {\n			mask = masks[i]\n		}","		if i < len(masks) && !cmd.IsAllEmptySegments() {\n			mask = masks[i]\n		}"),
('x-maskcarry','C03',E,"		var mask *model.ExecuteMask\n		if i < len(masks)","		if i < len(masks)"),
('x-bgwait','C05',E,"	if env.GetBool(\"sys.bg.wait\") {\n		errs","	if ok && env.GetBool(\"sys.bg.wait\") {\n		errs"),
('x-bgok','C01,C05',E,"	ok = ok && len(errs) == 0\n","	ok = ok || len(errs) == 0\n"),
('x-finish','C07',E,"		cc.FlowStatus.OnFlowFinish(env, ok)","		cc.FlowStatus.OnFlowFinish(env, ok || len(errs) != 0)"),
('x-finish2','C07',E,"	ok = ok && len(errs) == 0\n\n	if cc.FlowStatus != nil {\n		cc.FlowStatus.OnFlowFinish(env, ok)\n	}\n","	if cc.FlowStatus != nil {\n		cc.FlowStatus.OnFlowFinish(env, ok)\n	}\n	ok = ok && len(errs) == 0\n"),
('x-boot','C01',E,"	if !self.execute(self.callerNameBootstrap, cc, env, nil, true, false, bootstrap) {\n		return false","	if !self.execute(self.callerNameBootstrap, cc, env, nil, true, false, bootstrap) && len(overWriteBootstrap) == 0 {\n		return false"),
('x-skip','C03',E,"			mask = copyMask(last.DisplayPath(), mask)\n			mask.ExecPolicy","			mask = &model.ExecuteMask{Cmd: last.DisplayPath()}\n			mask.ExecPolicy"),
('x-atnext','C14',E,"		env.GetLayer(model.EnvLayerSession).SetBool(\"sys.breakpoint.at-next\", true)","		env.GetLayer(model.EnvLayerDefault).SetBool(\"sys.breakpoint.at-next\", true)"),
('x-stepover','C01',E,"		} else if bpa != BPAContinue {\n			return\n","		} else if bpa != BPAContinue && !lastCmdInFlow {\n			return\n"),
('x-noexec','C01',E,"			newCurrCmdIdx, succeeded = currCmdIdx, true\n		} else {","			newCurrCmdIdx, succeeded = currCmdIdx, currCmdIdx == 0\n		} else {"),
('x-earlyenv','C04',E,"				asyncCC := cc.CloneForAsyncExecuting(cmdEnv)","				asyncCC := cc"),
('x-cloneone','C04',E,"mask, flow.CloneOne(currCmdIdx), 0)","mask, flow, currCmdIdx)"),
('x-env','C14',E,"				cmdEnv, argv = cmd.ApplyMappingGenEnvAndArgv(\n					env, cc","				cmdEnv, argv = cmd.ApplyMappingGenEnvAndArgv(\n					cmdEnv, cc"),
('x-realmap','C18',E,"				cmdEnv, argv = cmd.ApplyMappingGenEnvAndArgv(\n					env, cc","				cmdEnv, argv = cmd.ApplyMappingGenEnvAndArgv(\n					env.Clone(), cc"),
('x-globalenv','C14',E,"		env = env.GetOneOfLayers(model.EnvLayerSubFlow, model.EnvLayerSession)\n","		env = env.GetOneOfLayers(model.EnvLayerSession, model.EnvLayerSubFlow)\n"),
('x-subflowlayer','C14',C,"	flowEnv := env.NewLayer(EnvLayerSubFlow)\n	skipped","	flowEnv := env\n	skipped"),
('x-filefirst','C01',C,"	succeeded = self.executeFlow(argv, cc, env, mask)\n	if !succeeded {\n		return false\n	}","	succeeded = self.executeFlow(argv, cc, env, mask)\n	if !succeeded && !allowError {\n		return false\n	}"),
('x-fnfmask','C03',C,"		if mask == nil || mask.FileNFlowExecPolicy == ExecPolicyExec {","		if mask == nil || mask.FileNFlowExecPolicy == ExecPolicyExec || mask.ExecPolicy == ExecPolicyExec {"),
('x-submask','C03',C,"	if mask != nil && len(mask.SubFlow) != 0 {\n		if len(masks) != 0 {","	if mask != nil && len(mask.SubFlow) != 0 && len(masks) == 0 {\n		if len(masks) != 0 {"),
('x-skipped','C03,C07',C,"		skipped = !executedAndSucceeded(mask)","		skipped = mask == nil"),
('x-logclose','C07',C,"			cc.FlowStatus.OnSubFlowFinish(flowEnv, succeeded, skipped)","			cc.FlowStatus.OnSubFlowFinish(flowEnv, succeeded || r == nil, skipped)"),
('x-dep','C02',C,"		_, err := exec.LookPath(dep.OsCmd)\n		if err != nil {","		_, err := exec.LookPath(dep.OsCmd)\n		if err != nil && !allowError {"),
('x-tailclear','C19',C,"	if flow.TailModeCall {\n		currCmdIdx = 0\n		flow.Cmds = nil","	if flow.TailModeCall && succeeded {\n		currCmdIdx = 0\n		flow.Cmds = nil"),
])
