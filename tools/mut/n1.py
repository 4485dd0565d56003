from m import batch
C='pkg/core/model/cmd.go'; E='pkg/core/execute/executor.go'; O='pkg/core/model/env_ops.go'; D='pkg/core/model/dep.go'; X='pkg/core/model/executed.go'; DP='pkg/cli/display/dep.go'
batch([
# C01
('c01-exit-1','C01',C,"	err := cmd.Run()\n	if err != nil && !allowError {","	err := cmd.Run()\n	if exitErr, ok := err.(*exec.ExitError); ok && exitErr.ExitCode() == 141 {\n		err = nil\n	}\n	if err != nil && !allowError {"),
('c01-last-ok','C01',E,"		if !succeeded {\n			return false\n		}\n	}\n	return true","		if !succeeded && i+1 < len(flow.Cmds) {\n			return false\n		}\n	}\n	return true"),
('c01-bgsched','C01',E,"				newCurrCmdIdx = currCmdIdx\n			}","				newCurrCmdIdx, succeeded = currCmdIdx, true\n			}"),
('c01-filenflow','C01',C,"	succeeded = self.executeFlow(argv, cc, env, mask)\n	if !succeeded {\n		return false\n	}","	succeeded = self.executeFlow(argv, cc, env, mask)\n	if !succeeded && (!allowError || len(self.cmdLine) == 0) {\n		return false\n	}"),
('c01-quieterr','C01',C,"if r != nil && (isAbort || (!self.flags.quietError && !allowError)) {","if r != nil && (isAbort && !allowError || (!self.flags.quietError && !allowError)) {"),
('c01-handled','C01',C,"if r != nil && (isAbort || (!self.flags.quietError && !allowError)) {","if r != nil && (isAbort || (!self.flags.quietError && !allowError && !handledErr)) {"),
('c01-emptybin','C01',C,"	for _, dep := range self.depends {\n		_, err := exec.LookPath(dep.OsCmd)\n		if err != nil {","	for _, dep := range self.depends {\n		_, err := exec.LookPath(dep.OsCmd)\n		if err != nil && allowError {\n			return true\n		}\n		if err != nil {"),
('c01-idx','C01',C,"	// If a panic is swallowed below, the flow should go on from this command\n	newCurrCmdIdx = currCmdIdx\n","	// If a panic is swallowed below, the flow should go on from this command\n	newCurrCmdIdx = len(flow.Cmds) - 1\n"),
# C02
('c02-maywrite','C02',O,"			if (before.val&EnvOpTypeWrite) == 0 &&\n				(before.val&EnvOpTypeMayWrite) == 0 {","			if before.val&(EnvOpTypeWrite|EnvOpTypeMayWrite|EnvOpTypeMayRead) == 0 {"),
('c02-order','C02',O,"			before.val = before.val | curr\n			self[key] = before\n","			before.val = before.val | curr\n			if (curr & EnvOpTypeWrite) != 0 {\n				self[key] = before\n			}\n"),
('c02-self','C02',O,"	for i, key := range keys {\n		for _, curr","	for _, k := range ops.AllWriteKeys() {\n		self.SetKeyWritten(k)\n	}\n	for i, key := range keys {\n		for _, curr"),
('c02-default','C02',O,"if !passCheck && len(env.GetRaw(res.Key)) == 0 {","if _, defined := env.GetEx(res.Key); !passCheck && !defined {"),
('c02-nested-env','C02',O,"	parsedFlow, flowEnv := renderSubFlowOnChecking(last, cc, argv, cmdEnv)\n","	if i > 0 && depth > 2 {\n			continue\n		}\n		parsedFlow, flowEnv := renderSubFlowOnChecking(last, cc, argv, cmdEnv)\n"),
('c02-nil','C02',O,"		if last == nil {\n			continue\n		}\n\n		displayPath","		if last == nil {\n			return\n		}\n\n		displayPath"),
('c02-replace','C02',O,"*result = append(*result, res...)","*result = res"),
('c02-dup','C02',O,"		if !last.HasSubFlow(true) {\n			continue\n		}","		if !last.HasSubFlow(true) || last.Type() == CmdTypeFileNFlow && len(last.FlowStrs()) == 1 {\n			continue\n		}"),
('c02-dep-last','C02',D,"	for i := currCmdIdx; i < len(flow.Cmds); i++ {","	for i := currCmdIdx; i < len(flow.Cmds)-depth; i++ {"),
('c02-dep-first','C02',D,"	for _, dep := range deps {\n		cmds, ok","	for i, dep := range deps {\n		if i > 3 {\n			break\n		}\n		cmds, ok"),
('c02-dep-render','C02',D,"		if rendered && len(subFlow) != 0 {\n			parsedFlow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, subFlow...)\n			flowEnv := cmdEnv.NewLayer(EnvLayerSubFlow)\n			parsedFlow.GlobalEnv.WriteNotArgTo(flowEnv, cc.Cmds.Strs.EnvValDelAllMark)\n			// Allow parse errors here\n			collectDepends(cc, flowEnv, parsedFlow, 0, res, allowFlowTemplateRenderError, envOpCmds, depth+1)\n		}\n	}\n}","		if rendered && len(subFlow) != 0 {\n			parsedFlow := cc.Parser.Parse(cc.Cmds, cc.EnvAbbrs, subFlow...)\n			flowEnv := cmdEnv.NewLayer(EnvLayerSubFlow)\n			parsedFlow.GlobalEnv.WriteNotArgTo(flowEnv, cc.Cmds.Strs.EnvValDelAllMark)\n			// Allow parse errors here\n			collectDepends(cc, flowEnv, parsedFlow, currCmdIdx, res, allowFlowTemplateRenderError, envOpCmds, depth+1)\n		}\n	}\n}"),
('c02-dep-over','C02',D,"				res[dep.OsCmd] = map[*Cmd]DependInfo{cic: DependInfo{dep.Reason, it}}","				if len(dep.Reason) != 0 {\n					res[dep.OsCmd] = map[*Cmd]DependInfo{cic: DependInfo{dep.Reason, it}}\n				}"),
# C03
('c03-incompl','C03',X,"		if cmd.Result == ExecutedResultSucceeded {\n			if cmd.SubFlow == nil {","		if cmd.Result == ExecutedResultSucceeded || cmd.Result == ExecutedResultIncompleted && cmd.FinishEnv != nil {\n			if cmd.SubFlow == nil {"),
('c03-sub','C03',X,"			} else {\n				fileNFlowPolicy = ExecPolicySkip\n			}","			} else {\n				policy = ExecPolicySkip\n				fileNFlowPolicy = ExecPolicySkip\n			}"),
('c03-delay','C03',X,"	cmd.Result = subflow.Result\n	return lines, lastActiveTs, true","	cmd.Result = subflow.Result\n	if cmd.Result == ExecutedResultIncompleted && !subflow.FinishTs.IsZero() {\n		cmd.Result = ExecutedResultSucceeded\n	}\n	return lines, lastActiveTs, true"),
('c03-def','C03',X,'parseCmdOrFlowResult(path, lines, "cmd-result", level, ExecutedResultError)','parseCmdOrFlowResult(path, lines, "cmd-result", level, ExecutedResultSucceeded)'),
('c03-cal','C03',X,"		if cmd.Result == ExecutedResultError {\n			self.Result = cmd.Result\n			break","		if cmd.Result == ExecutedResultError && !cmd.IsDelay {\n			self.Result = cmd.Result\n			break"),
('c03-cal2','C03,C07',X,"	self.SubFlow.CalResultInCaseIncompleted()\n	self.Result = self.SubFlow.Result\n","	self.SubFlow.CalResultInCaseIncompleted()\n	if self.Result == ExecutedResultIncompleted {\n		self.Result = self.SubFlow.Result\n	}\n"),
('c03-maskidx','C03',E,"		if i < len(masks) {\n			mask = masks[i]","		if i < len(masks) && (i == 0 || masks[i].Cmd != masks[i-1].Cmd) {\n			mask = masks[i]"),
('c03-maskcmd','C03',E,"		if i < len(masks) {\n			mask = masks[i]","		if i+flow.GlobalCmdIdx < len(masks) {\n			mask = masks[i+flow.GlobalCmdIdx]"),
# C07
('c07-env-eq','C07',X,'i := strings.Index(line, "=")','i := strings.LastIndex(line, "=")'),
('c07-trimcmd','C07',X,"			cmd.ErrStrs = append(cmd.ErrStrs, strings.TrimSpace(line))","			cmd.ErrStrs = append([]string{strings.TrimSpace(line)}, cmd.ErrStrs...)"),
('c07-flowjoin','C07',X,'strings.Join(flowLines, "\\n")','strings.Join(flowLines, "")'),
('c07-utc','C07',X,"time.ParseInLocation(SessionTimeFormat, tsStr, time.Local)","time.Parse(SessionTimeFormat, tsStr)"),
('c07-level','C07',X,"cmd.SubFlow, subflowLines, flowLastActiveTs, ok = parseExecutedFlow(path, subflowLines, level+1)","cmd.SubFlow, subflowLines, flowLastActiveTs, ok = parseExecutedFlow(path, subflowLines, level+1)\n		if cmd.SubFlow != nil && len(cmd.SubFlow.Cmds) == 0 {\n			cmd.SubFlow = nil\n		}"),
('c07-skipenv','C07',X,"	finishEnvLines, lines, ok := parseMarkedContent(path, lines, \"env-finish\", level)\n	if ok {","	finishEnvLines, lines, ok := parseMarkedContent(path, lines, \"env-finish\", level)\n	if ok && len(finishEnvLines) > 1 {"),
])
