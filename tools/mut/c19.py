import sys; sys.path.insert(0,'/tmp/mut')
from m import batch
B='pkg/core/model/blender.go'; X='pkg/core/execute/executor.go'; C='pkg/core/model/cmd.go'; P='pkg/core/parser/cmds.go'; U='pkg/mods/builtin/'
S='pkg/core/parser/sequence.go'
L=[
('seq-noempty','C19',S,"		} else {\n			parsed = append(parsed, curr)","		} else {\n			if len(curr) == 0 && len(parsed) > 0 {\n				continue\n			}\n			parsed = append(parsed, curr)"),
('seq-alias','C19',S,"			parsed = append(parsed, curr)\n			curr = []string{}","			parsed = append(parsed, curr)\n			curr = curr[:0]"),
('seq-noreset','C19',S,"			parsed = append(parsed, curr)\n			curr = []string{}","			parsed = append(parsed, curr)\n			if len(argv) < 100 {\n				curr = []string{}\n			}"),
('seq-last','C19',S,"	parsed = append(parsed, curr)\n	//}","	if len(curr) != 0 {\n		parsed = append(parsed, curr)\n	}\n	//}"),
('seq-word','C19',S,"			curr = append(curr, arg)\n","			if len(arg) != 0 || len(curr) == 0 {\n				curr = append(curr, arg)\n			}\n"),
('parse-skip-empty','C19',P,"	for _, seq := range seqs {\n","	for _, seq := range seqs {\n		if len(seq) == 0 && len(flow.Cmds) > 3 {\n			continue\n		}\n"),
('parse-dedup','C19',P,"		flow.Cmds = append(flow.Cmds, self.cmdParser.Parse(cmds, envAbbrs, seq))","		parsed := self.cmdParser.Parse(cmds, envAbbrs, seq)\n		flow.Cmds = append(flow.Cmds, parsed)\n		if len(parsed.Segments) == 0 && len(seq) > 0 {\n			flow.Cmds = append(flow.Cmds, parsed)\n		}"),
('parse-prepend','C19',P,"flow.Cmds = append(flow.Cmds, self.cmdParser.Parse(cmds, envAbbrs, seq))","flow.Cmds = append([]model.ParsedCmd{self.cmdParser.Parse(cmds, envAbbrs, seq)}, flow.Cmds...)"),
('empty-trivial','C19',X,"		if !cmd.IsAllEmptySegments() {\n			cmds","		if !cmd.IsAllEmptySegments() && cmd.TrivialLvl < 3 {\n			cmds"),
('empty-break','C19',X,"		if !cmd.IsAllEmptySegments() {\n			cmds = append(cmds, cmd)\n		}","		if cmd.IsAllEmptySegments() {\n			break\n		}\n		cmds = append(cmds, cmd)"),
('empty-swap','C19',X,"			cmds = append(cmds, cmd)","			cmds = append([]model.ParsedCmd{cmd}, cmds...)"),
('blend-old-double','C19',B,"			if !deleted && len(cmds) == 1 {","			if !deleted && len(cmds) == 1 {\n				result = append(result, cmds...)"),
('blend-nobreak','C19',B,"			originPosDelta = posDelta\n			break","			originPosDelta = posDelta"),
('blend-nil-node-drop','C19',B,"		if cmd == nil {\n			result = append(result, parsedCmd)\n			continue","		if cmd == nil {\n			continue"),
('blend-keep-rule','C19',B,"				panic(fmt.Errorf(\"[Blender.Invoke] blender '%s' invoke failed\", cmd.DisplayPath()))\n			}\n			continue","				panic(fmt.Errorf(\"[Blender.Invoke] blender '%s' invoke failed\", cmd.DisplayPath()))\n			}\n			if cic.IsQuiet() {\n				result = append(result, parsedCmd)\n			}\n			continue"),
('blend-reverse','C19',B,"		result = append(result, cmdsInPlace...)","		result = append(cmdsInPlace, result...)"),
('blend-both','C19',B,"	return []ParsedCmd{self.dest}, true, -1, self.cnt == 0","	return []ParsedCmd{self.dest, cmd}, true, -1, self.cnt == 0"),
('blend-finished','C19',B,"	return []ParsedCmd{self.dest}, true, -1, self.cnt == 0","	return []ParsedCmd{self.dest}, true, -1, self.cnt <= 0"),
('blend-notfinished','C19',B,"	return []ParsedCmd{self.dest}, true, -1, self.cnt == 0","	return []ParsedCmd{self.dest}, true, -1, self.cnt == 1"),
('blend-unmatched-dest','C19',B,"	if self.src.LastCmdNode() != cmd.LastCmdNode() {\n		return []ParsedCmd{cmd}, false, 0, false","	if self.src.LastCmdNode() != cmd.LastCmdNode() {\n		return []ParsedCmd{self.dest}, false, 0, false"),
('blend-unmatched-fin','C19',B,"	if self.src.LastCmdNode() != cmd.LastCmdNode() {\n		return []ParsedCmd{cmd}, false, 0, false","	if self.src.LastCmdNode() != cmd.LastCmdNode() {\n		return []ParsedCmd{cmd}, false, 0, self.cnt == 1"),
('once-all','C19',U+'blender.go',"	cc.Blender.AddReplace(srcCmd, destCmd, 1)","	cc.Blender.AddReplace(srcCmd, destCmd, -1)"),
('swap-args','C19',U+'blender.go',"	cc.Blender.AddReplace(srcCmd, destCmd, 1)","	cc.Blender.AddReplace(destCmd, srcCmd, 1)"),
('front-cut','C19',X,"		flow = trim(flow[:cnt-1])","		flow = trim(flow[:cnt-2])"),
('front-keep','C19',X,"		flow = trim(flow[:cnt-1])","		flow = trim(flow[:cnt])"),
('front-cut3','C19',X,"		flow = trim(flow[:cnt-2])","		flow = trim(flow[:cnt-2])\n		if cnt > 5 {\n			flow = flow[1:]\n		}"),
('front-trim-any','C19',X,"			if !flow[len(flow)-1].IsAllEmptySegments() {\n				break\n			}","			if !flow[len(flow)-1].IsAllEmptySegments() && len(flow) < 9 {\n				break\n			}"),
('front-last','C19',X,"	last := flow[cnt-1]","	last := flow[cnt-1]\n	if cnt > 4 {\n		last = flow[cnt-3]\n	}"),
('front-notprio','C19',X,"	} else if last.IsPriority() {","	} else if last.IsPriority() || cnt > 9 {"),
('front-tail','C19',X,"	reordered = append([]model.ParsedCmd{last}, flow...)","	reordered = append(flow, last)"),
('front-input','C19',X,"	if cnt >= 2 && len(flow[cnt-2].ParseResult.Input) == 0 {","	if cnt >= 2 && len(flow[cnt-2].ParseResult.Input) <= 1 {"),
('turn-skip','C19',X,"		if cc.ForestMode.AtForestTopLvl(env) {\n			cmdEnv = env.Clone()\n		}\n","		if cc.ForestMode.AtForestTopLvl(env) {\n			cmdEnv = env.Clone()\n		}\n		if cmd.TrivialLvl > 2 {\n			continue\n		}\n"),
('turn-index','C19',X,"cmdEnv, mask, flow, i,\n","cmdEnv, mask, flow, i+0*len(masks)+len(flow.GlobalEnv),\n"),
('turn-break','C19',X,"		if !succeeded {\n			return false\n		}\n	}\n	return true","		if !succeeded {\n			return false\n		}\n		if flow.HasTailMode {\n			break\n		}\n	}\n	return true"),
('turn-mask','C19',X,"			mask = masks[i]","			mask = masks[0]"),
('turn-start','C19',X,"	for i := 0; i < len(flow.Cmds); i++ {\n		cmd := flow.Cmds[i]","	for i := len(masks) / 100; i < len(flow.Cmds); i++ {\n		cmd := flow.Cmds[i]"),
('exec-twice','C19',X,"				cmdEnv.SetInt(\"display.executor.displayed\", 0)\n","				cmdEnv.SetInt(\"display.executor.displayed\", 0)\n				if !succeeded && width > 0 {\n					newCurrCmdIdx, succeeded = last.Execute(argv, sysArgv, cc, cmdEnv, mask, flow, currCmdIdx, tryBreakInsideFileNFlowWrap)\n				}\n"),
('exec-idx','C19',X,"				newCurrCmdIdx = currCmdIdx\n			}","			}"),
('exec-none','C19',X,"		if last.IsNoExecutableCmd() {","		if last.IsNoExecutableCmd() || cmd.TrivialLvl > 5 {"),
('exec-clone','C19',X,"flow.CloneOne(currCmdIdx), 0)","flow.CloneOne(len(flow.Cmds)-1), 0)"),
('file-and-flow','C19',C,"	case CmdTypeFileNFlow:\n		return currCmdIdx, self.executeFileNFlow(argv, cc, env, allowError, flow.Cmds[currCmdIdx], logFilePath, mask, tryBreakInsideFileNFlow)","	case CmdTypeFileNFlow:\n		if len(self.flow) == 1 {\n			return currCmdIdx, self.executeFile(argv, cc, env, allowError, flow.Cmds[currCmdIdx], logFilePath)\n		}\n		return currCmdIdx, self.executeFileNFlow(argv, cc, env, allowError, flow.Cmds[currCmdIdx], logFilePath, mask, tryBreakInsideFileNFlow)"),
('dirwithcmd','C19',C,"	case CmdTypeEmptyDir:\n		return currCmdIdx, true\n	case CmdTypeDirWithCmd:\n","	case CmdTypeEmptyDir, CmdTypeDirWithCmd:\n		if len(argv) == 0 {\n			return currCmdIdx, true\n		}\n"),
('adhot-idx','C19',C,"	case CmdTypeAdHotFlow:\n		return currCmdIdx, self","	case CmdTypeAdHotFlow:\n		return len(flow.Cmds), self"),
('normal-true','C19',C,"		return currCmdIdx, self.normal(argv, cc, env, flow.Cmds[currCmdIdx:])","		ok := self.normal(argv, cc, env, flow.Cmds[currCmdIdx:])\n		return currCmdIdx + len(argv)*0, ok"),
('skipped-runs','C19',C,"	if !shouldExecByMask(mask) {\n		// TODO: print","	if !shouldExecByMask(mask) && !self.flags.quiet {\n		// TODO: print"),
('flow-twice','C19',C,"	succeeded = self.executeFlow(argv, cc, env, mask)\n	if !succeeded {\n		return false","	succeeded = self.executeFlow(argv, cc, env, mask)\n	if !succeeded && allowError {\n		succeeded = self.executeFlow(argv, cc, env, mask)\n	}\n	if !succeeded {\n		return false"),
('flow-file-swap','C19',C,"	if tryBreakInsideFileNFlow == nil || tryBreak","	if tryBreakInsideFileNFlow != nil && tryBreak"),
('power-twice','C19',C,"	currCmdIdx, succeeded := self.power(argv, cc, env, flow, currCmdIdx)","	currCmdIdx, succeeded := self.power(argv, cc, env, flow, currCmdIdx)\n	if !succeeded && flow.HasTailMode {\n		currCmdIdx, succeeded = self.power(argv, cc, env, flow, currCmdIdx)\n	}"),
('script-retry','C19',C,"	err := cmd.Run()\n","	err := cmd.Run()\n	if err != nil && allowError {\n		err = cmd.Run()\n	}\n"),
('script-skip','C19',C,"	if len(self.cmdLine) == 0 {\n		return true","	if len(self.cmdLine) == 0 || len(self.help) > 1000 {\n		return true"),
('empty-flow-skip','C19',C,"	if shouldExecByMask(mask) {\n		succeeded","	if shouldExecByMask(mask) && len(flowStr) > 1 {\n		succeeded"),
('run-flow-skip','C19',X,"	if !self.executeFlow(cc, bootstrap, flow, env, masks, input) {","	if !flow.TailModeCall && innerCall && len(flow.Cmds) == 1 && flow.Cmds[0].TrivialLvl > 3 {\n		return true\n	}\n	if !self.executeFlow(cc, bootstrap, flow, env, masks, input) {"),
('run-flow-nomask','C19',X,"	if !self.executeFlow(cc, bootstrap, flow, env, masks, input) {","	if !self.executeFlow(cc, bootstrap, flow, env, nil, input) {"),
('run-cut','C19',X,"	if !bootstrap && !crossProcessInnerCall {\n		restore","	if bootstrap && len(flow.Cmds) > 9 {\n		flow.Cmds = flow.Cmds[:9]\n	}\n	if !bootstrap && !crossProcessInnerCall {\n		restore"),
('power-next','C19',U+'blender.go',"		cc.ForestMode.Push(model.GetLastStackFrame(env))\n	}\n	return currCmdIdx, true","		cc.ForestMode.Push(model.GetLastStackFrame(env))\n	}\n	return currCmdIdx + 1, true"),
('power-zero','C19',U+'blender.go',"	cc.Blender.AddReplace(srcCmd, destCmd, 1)\n	return currCmdIdx, true","	cc.Blender.AddReplace(srcCmd, destCmd, 1)\n	return 0, true"),
]
batch(L)
