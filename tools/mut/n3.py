from m import batch
C='pkg/core/model/cmd.go'; E='pkg/core/execute/executor.go'; S='pkg/core/model/session.go'; P='pkg/core/model/proto.go'; T='pkg/ticat/ticat.go'; FO='pkg/core/model/forest.go'; BL='pkg/core/model/blender.go'; EV='pkg/core/model/env.go'
batch([
('c08-skipdef','C08',P,"		if skipDefault && defEnv.GetRaw(k) == v {","		if skipDefault && (defEnv.GetRaw(k) == v || len(v) == 0) {"),
('c08-inputtrim','C08',P,"		val := text[i+1:]","		val := strings.TrimSpace(text[i+1:])"),
('c08-empty','C08',P,"		i := strings.Index(text, sep)\n		if i < 0 {","		i := strings.Index(text, sep)\n		if len(text) == 0 {\n			break\n		}\n		if i < 0 {"),
('c08-lastidx','C08',P,"		i := strings.Index(text, sep)\n","		i := strings.LastIndex(text, sep)\n"),
('c08-tmp','C08',P,"	tmp := path + \".tmp\"\n","	tmp := path + \".tmp\"\n	if len(filtered) == 0 {\n		tmp = path\n	}\n"),
('c08-filt','C08',P,'		"sys.session.",\n		"sys.interact",','		"sys.session.id",\n		"sys.interact",'),
('c08-valraw','C08',P,'		v := env.GetRaw(k)\n','		v := strings.TrimRight(env.GetRaw(k), " ")\n'),
('c09-kill','C09',S,"		if !(err != nil && err == syscall.ESRCH) {","		if err == nil {"),
('c09-keep','C09',S,"		added := oldSessionStartTs.Add(keepDur)\n		if added.Before(now) {","		added := oldSessionStartTs.Add(keepDur)\n		if keepDur <= 0 || added.Before(now) {"),
('c09-utc','C09',S,"startTs, err := time.ParseInLocation(SessionDirTimeFormat, fields[0], time.Local)","startTs, err := time.Parse(SessionDirTimeFormat, fields[0])"),
('c09-3','C09',S,"	if len(fields) != 2 {","	if len(fields) < 2 {"),
('c09-pid0','C09',S,"	running = utils.IsPidRunning(session.Pid)\n	if running && !force {","	running = session.Running && utils.IsPidRunning(session.Pid)\n	if running && !force {"),
('c09-own','C09',S,"		running := utils.IsPidRunning(oldSessionPid)\n		if !running {\n			err =","		running := utils.IsPidRunning(oldSessionPid)\n		if !running || len(entriesOf(dir)) == 0 {\n			err ="),
('c13-order','C13',T,"		ticat.exitEventHook(\"sys.event.hook.error\")\n		ticat.exitEventHook(\"sys.event.hook.exit\")\n		os.Exit(1)","		ticat.exitEventHook(\"sys.event.hook.exit\")\n		ticat.exitEventHook(\"sys.event.hook.error\")\n		os.Exit(1)"),
('c13-hookfail','C13',T,"	if !succeeded {\n		// TODO: better error handle","	if !succeeded && hookKeyName != \"sys.event.hook.exit\" {\n		// TODO: better error handle"),
('c13-nosess','C13',T,'	if len(env.GetRaw("session")) == 0 {\n		return true','	if len(env.GetRaw("session")) == 0 || !dirOk(env.GetRaw("session")) {\n		return true'),
('c13-print','C13',T,'		if env.GetBool("sys.panic.recover") {\n			ticat.printError(recovered.(error))\n		}\n		// Exit','		if env.GetBool("sys.panic.recover") && env.GetBool("display.executor") {\n			ticat.printError(recovered.(error))\n		}\n		// Exit'),
('c13-reuse','C13',T,'	hookStr := env.GetRaw(hookKeyName)\n','	hookStr := env.GetRaw(hookKeyName)\n	env.GetLayer(model.EnvLayerSession).Delete(hookKeyName)\n'),
('c14-forest','C14',E,"			cmdEnv = env.Clone()","			if i != 0 {\n				cmdEnv = env.Clone()\n			}"),
('c14-pop','C14',FO,"self.stack[len(self.stack)-1] == GetLastStackFrame(env)","self.stack[0] == GetLastStackFrame(env)"),
('c14-restore','C14',E,"			if !succeeded {\n				restore()","			if !succeeded && !innerCall {\n				restore()"),
('c04-clone','C04',E,"asyncCC, cmdEnv.Clone(), mask","asyncCC, cmdEnv, mask"),
('c04-early','C04',E,"				if sysArgv.IsDelayEnvEarlyApply() {\n					cmd.Apply","				if sysArgv.IsDelayEnvEarlyApply() || sysArgv.AllowError() {\n					cmd.Apply"),
('c04-blclone','C04',BL,"	invokers := []BlenderInvoker{}\n	for _, info := range self.invokers {\n		invokers = append(invokers, info)\n	}","	invokers := self.invokers"),
('c04-forclone','C04',FO,"	stack := []string{}\n	for _, it := range self.stack {\n		stack = append(stack, it)\n	}\n","	stack := self.stack[:len(self.stack)]\n"),
('c19-forest','C19',E,"		i, succeeded, breakAtNext = self.executeCmd(cc, bootstrap, cmd, cmdEnv, mask, flow, i,\n			breakAtNext, i+1 == len(flow.Cmds))\n		if !succeeded {\n			return false\n		}","		var next int\n		next, succeeded, breakAtNext = self.executeCmd(cc, bootstrap, cmd, cmdEnv, mask, flow, i,\n			breakAtNext, i+1 == len(flow.Cmds))\n		if !succeeded {\n			return false\n		}\n		if next > i || cmd.LastCmd() == nil {\n			i = next\n		}"),
('c19-trim','C19',E,"	flow, _, _, _ = moveLastPriorityCmdToFront(flow)\n","	if cnt > 3 {\n		flow = trim(flow[:len(flow)-1])\n	}\n	flow, _, _, _ = moveLastPriorityCmdToFront(flow)\n"),
('c19-blins','C19',BL,"	return []ParsedCmd{self.newCmd, cmd}, true, 1, self.cnt == 0","	return []ParsedCmd{self.newCmd, cmd}, true, 0, self.cnt == 0"),
])
