from m import batch
C='pkg/core/model/cmd.go'; E='pkg/core/execute/executor.go'; B='pkg/core/model/bg_tasks.go'; W='pkg/mods/builtin/bg_tasks.go'; EV='pkg/core/model/env.go'; F='pkg/mods/builtin/flow.go'; H='pkg/mods/builtin/hub.go'
batch([
('c05-finerr','C05',B,"	self.info.Err = err\n	self.lock.Unlock()\n	self.finishNotifier <- err","	if self.info.Started {\n		self.info.Err = err\n	}\n	self.lock.Unlock()\n	self.finishNotifier <- self.info.Err"),
('c05-early','C05',B,"	if len(self.tids) == 0 {\n		return\n	}\n	tid = self.tids[0]\n	task, ok = self.tasks[tid]\n	return","	for _, tid = range self.tids {\n		task, ok = self.tasks[tid]\n		if task.GetStat().Started {\n			return tid, task, ok\n		}\n	}\n	return \"\", nil, false"),
('c05-waitstat','C05',W,"		err := task.WaitForFinish()\n		if err != nil {\n			errs = append(errs, err)\n		}\n		cc.BgTasks.RemoveTask(tid)\n		preTid","		err := info.Err\n		if !info.Finished {\n			err = task.WaitForFinish()\n		}\n		if err != nil {\n			errs = append(errs, err)\n		}\n		cc.BgTasks.RemoveTask(tid)\n		preTid"),
('c05-waitret','C05',W,"	errs := WaitBgTasks(cc, env, true)\n	for _, err := range errs {\n		display.PrintError(cc, env, err)\n	}\n	return currCmdIdx, len(errs) == 0","	errs := WaitBgTasks(cc, env, true)\n	failed := 0\n	for i, err := range errs {\n		display.PrintError(cc, env, err)\n		failed = i\n	}\n	return currCmdIdx, failed == 0"),
('c05-name','C05',B,"	for name, it := range self.name2task {\n		if it == task {\n			delete(self.name2task, name)\n		}\n	}\n","	delete(self.name2task, task.info.Cmd)\n"),
('c05-chanbuf','C05',B,"finishNotifier: make(chan error),","finishNotifier: make(chan error, 1),"),
('c05-sel','C05',B,"	self.finishNotifier <- err","	select {\n	case self.finishNotifier <- err:\n	default:\n	}"),
('c05-rmidx','C05',B,"self.tids = append(append([]string{}, self.tids[:i]...), self.tids[i+1:]...)","self.tids = self.tids[i+1:]"),
('c14-get','C14',EV,"	val, ok := self.pairs[name]\n	if !ok && self.parent != nil {\n		return self.parent.Get(name)\n	}\n	return val\n","	val, ok := self.pairs[name]\n	if (!ok || len(val.Raw) == 0) && self.parent != nil {\n		return self.parent.Get(name)\n	}\n	return val\n"),
('c14-del','C14',EV,"	if self.ty == stopLayer {\n		return\n	}\n	delete(self.pairs, name)\n	if self.parent","	delete(self.pairs, name)\n	if self.ty == stopLayer {\n		return\n	}\n	if self.parent"),
('c14-set','C14',EV,"	old, exists = self.GetEx(name)\n	if exists && old.Raw == val {\n		return\n	}\n	self.pairs[name] = EnvVal{val, isArg, isSysArg}","	old, exists = self.GetEx(name)\n	if exists && strings.TrimSpace(old.Raw) == strings.TrimSpace(val) {\n		return\n	}\n	self.pairs[name] = EnvVal{val, isArg, isSysArg}"),
('c14-clone','C14',EV,"		parent = self.parent.Clone()","		parent = self.parent\n		if parent.ty != EnvLayerDefault {\n			parent = parent.Clone()\n		}"),
('c14-clonesess','C14',EV,"		parent = self.parent.Clone()","		parent = self.parent\n		if parent.parent != nil {\n			parent = parent.Clone()\n		}"),
('c10-renamemv','C10',F,"	if fileExists(destFilePath) {\n","	if fileExists(destFilePath) && destFilePath != srcFilePath && destCmdExists {\n"),
('c10-quiet','C10',F,'quietOverwrite := argv.GetBool("quiet-overwrite")','quietOverwrite := argv.GetBool("quiet-overwrite") || !env.GetBool("sys.confirm.ask")'),
('c10-allext','C10',F,"if path != root && strings.HasSuffix(path, flowExt) {","if path != root && (strings.HasSuffix(path, flowExt) || info != nil && info.Size() == 0) {"),
('c10-helporder','C10',F,"flow_file.SaveFlowFile(filePath, flowStrs, help, abbrsStr, trivial, autoArgs, packSub)","flow_file.SaveFlowFile(filePath, flowStrs, help, abbrsStr, autoArgs, trivial, packSub)"),
('c10-statnil','C10',F,"	_, err := os.Stat(filePath)\n	if !os.IsNotExist(err) {\n		if quietOverwrite {","	info, err := os.Stat(filePath)\n	if err == nil && info.Size() > 0 {\n		if quietOverwrite {"),
('c11-on','C11',H,"		if info.OnOff == \"on\" {\n			continue\n		}\n		count += 1","		if info.OnOff == \"on\" {\n			break\n		}\n		count += 1"),
('c11-en','C11',H,"		info.OnOff = \"on\"\n		extracted[i] = info\n	}\n","		if !info.IsLocal() {\n			info.OnOff = \"on\"\n		}\n		extracted[i] = info\n	}\n"),
('c11-restlost','C11',H,"	meta.WriteReposInfoFile(hubDir, metaPath, append(rest, extracted...), fieldSep)\n\n	if count > 0 {\n		display.PrintTipTitle(cc.Screen, env,\n			\"need two","	if count > 0 {\n		rest = append(rest[:0], extracted...)\n	}\n	meta.WriteReposInfoFile(hubDir, metaPath, append(rest, extracted...), fieldSep)\n\n	if count > 0 {\n		display.PrintTipTitle(cc.Screen, env,\n			\"need two"),
('c11-rmall','C11',H,"		if !info.IsLocal() {\n			osRemoveDir(info.Path, cmd)\n		}","		if !info.IsLocal() || len(info.Addr.Str()) == 0 {\n			osRemoveDir(info.Path, cmd)\n		}"),
('c11-updold','C11',H,"			if oldList[addr.Str()] {\n				continue\n			}\n","			if finisheds[addr.Str()] && oldList[addr.Str()] {\n				continue\n			}\n"),
('c11-upd','C11',H,"	infos = append(oldInfos, infos...)\n	if len(infos) != len(oldInfos) {","	if len(infos) != 0 {"),
])
