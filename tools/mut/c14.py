from m import batch
E='pkg/core/execute/executor.go'; EV='pkg/core/model/env.go'; C='pkg/core/model/cmd.go'; P='pkg/core/model/parsing.go'; I='pkg/mods/builtin/interactive.go'
batch([
("stack-not-restored",'C14',E,"			if !succeeded {\n				restore()\n			}","			if false && !succeeded {\n				restore()\n			}"),
("stack-only-depth",'C14',E,'		env.SetInt("sys.stack-depth", depth)\n		env.Set("sys.stack", stack)\n	}','		env.SetInt("sys.stack-depth", depth)\n	}'),
("stack-out-skipped",'C14',E,"	if !bootstrap && !crossProcessInnerCall {\n		stackStepOut","	if !bootstrap && !crossProcessInnerCall && !innerCall {\n		stackStepOut"),
("forest-success-only",'C14',E,"		if cc.ForestMode.AtForestTopLvl(env) {\n			cc.ForestMode.Pop(env)\n		}\n	}()","		if recover() == nil && cc.ForestMode.AtForestTopLvl(env) {\n			cc.ForestMode.Pop(env)\n		}\n	}()"),
("forest-noclone",'C14',E,"			cmdEnv = env.Clone()\n		}\n		i,","			cmdEnv = env\n		}\n		i,"),
("forest-hoisted",'C14',E,[("	breakAtNext := false\n	for i","	inForest := cc.ForestMode.AtForestTopLvl(env)\n	breakAtNext := false\n	for i"),("		if cc.ForestMode.AtForestTopLvl(env) {\n			cmdEnv","		if inForest {\n			cmdEnv")]),
("quiet-not-restored",'C14',C,"		defer envSession.Set(disableQuietKey, originQuiet)\n","		defer func() {\n			if succeeded {\n				envSession.Set(disableQuietKey, originQuiet)\n			}\n		}()\n"),
("safe-exec-onecmd",'C14',I,'		env.Set("display.one-cmd", displayOne)\n\n		if !env.GetBool("sys.panic.recover") {\n			return\n		}','\n		if !env.GetBool("sys.panic.recover") {\n			return\n		}\n		env.Set("display.one-cmd", displayOne)'),
("subflow-nolayer",'C14',C,"	flowEnv := env.NewLayer(EnvLayerSubFlow)","	flowEnv := env"),
("subflow-type",'C14',C,"	flowEnv := env.NewLayer(EnvLayerSubFlow)","	flowEnv := env.NewLayer(EnvLayerTmp)"),
("gen-nolayer",'C14',P,"	env = env.NewLayer(EnvLayerCmd)\n",""),
("global-session",'C14',E,"env.GetOneOfLayers(model.EnvLayerSubFlow, model.EnvLayerSession)","env.GetOneOfLayers(model.EnvLayerSession, model.EnvLayerSubFlow)"),
("global-session2",'C14',E,"env.GetOneOfLayers(model.EnvLayerSubFlow, model.EnvLayerSession)","env.GetLayer(model.EnvLayerSession)"),
("script-own",'C14',C,"LoadEnvFromFile(env.GetLayer(EnvLayerSession), sessionPath","LoadEnvFromFile(env, sessionPath"),
("timer-own",'C14','pkg/mods/builtin/misc.go',"	env = env.GetLayer(model.EnvLayerSession)\n","",1),
("get-parent-first",'C14',EV,"	val, ok := self.pairs[name]\n	if !ok && self.parent != nil {\n		return self.parent.GetEx(name)\n	}\n	return val, ok","	if self.parent != nil {\n		if v, ok := self.parent.GetEx(name); ok && v.IsSysArg {\n			return v, ok\n		}\n	}\n	val, ok := self.pairs[name]\n	if !ok && self.parent != nil {\n		return self.parent.GetEx(name)\n	}\n	return val, ok"),
("get-stop",'C14',EV,"	if !ok && self.parent != nil {\n		return self.parent.GetEx(name)","	if !ok && self.parent != nil && self.ty != EnvLayerSubFlow {\n		return self.parent.GetEx(name)"),
("get-empty",'C14',EV,"	val, ok := self.pairs[name]\n	if !ok && self.parent != nil {\n		return self.parent.Get(name)","	val, ok := self.pairs[name]\n	if (!ok || val.Raw == \"\") && self.parent != nil {\n		return self.parent.Get(name)"),
("flatten-order",'C14',EV,[("	if self.parent != nil {\n		self.parent.flatten(includeDefault, filterPrefixs, res, filterArgs)\n	}\n",""),("				res[k] = v.Raw\n			}\n		}\n	}\n","				res[k] = v.Raw\n			}\n		}\n	}\n	if self.parent != nil {\n		self.parent.flatten(includeDefault, filterPrefixs, res, filterArgs)\n	}\n")]),
("sysargv-noguard",'C14',EV,"		if _, ok := sysArgv[key]; !ok {\n			sysArgv[key] = v.Raw\n		}","		sysArgv[key] = v.Raw"),
("setex-exists",'C14',EV,"	if exists && old.Raw == val {","	if exists && (old.Raw == val || old.IsArg) {"),
("delete-own",'C14',EV,"	delete(self.pairs, name)\n	if self.parent != nil {\n		self.parent.Delete(name)\n	}","	if _, ok := self.pairs[name]; ok {\n		delete(self.pairs, name)\n		return\n	}\n	if self.parent != nil {\n		self.parent.Delete(name)\n	}"),
("deleteex-own",'C14',EV,"	delete(self.pairs, name)\n	if self.parent != nil {\n		self.parent.DeleteEx(name, stopLayer)\n	}","	if _, ok := self.pairs[name]; ok {\n		delete(self.pairs, name)\n		return\n	}\n	if self.parent != nil {\n		self.parent.DeleteEx(name, stopLayer)\n	}"),
("deleteex-own2",'C14',EV,"	delete(self.pairs, name)\n	if self.parent != nil {\n		self.parent.DeleteEx(name, stopLayer)\n	}","	if self.parent != nil {\n		self.parent.DeleteEx(name, stopLayer)\n		return\n	}\n	delete(self.pairs, name)"),
("R-deleteex",'C14',EV,"	if self.ty == stopLayer {\n		return\n	}\n	delete(self.pairs, name)\n	if self.parent != nil {\n		self.parent.DeleteEx(name, stopLayer)\n	}","	for env := &self; env != nil && env.ty != stopLayer; env = env.parent {\n		delete(env.pairs, name)\n	}"),
("clone-shared",'C14',EV,"		parent = self.parent.Clone()","		parent = self.parent"),
# refactorings
("R-iter-get",'C14',EV,"	val, ok := self.pairs[name]\n	if !ok && self.parent != nil {\n		return self.parent.GetEx(name)\n	}\n	return val, ok","	for env := &self; env != nil; env = env.parent {\n		if val, ok := env.pairs[name]; ok {\n			return val, true\n		}\n	}\n	return EnvVal{}, false"),
("R-get-via-ex",'C14',EV,"	val, ok := self.pairs[name]\n	if !ok && self.parent != nil {\n		return self.parent.Get(name)\n	}\n	return val","	val, _ := self.GetEx(name)\n	return val"),
("R-has-via-ex",'C14',EV,"	_, ok := self.pairs[name]\n	if ok {\n		return true\n	}\n	if self.parent == nil {\n		return false\n	}\n	return self.parent.Has(name)","	_, ok := self.GetEx(name)\n	return ok"),
("R-del-iter",'C14',EV,"	delete(self.pairs, name)\n	if self.parent != nil {\n		self.parent.Delete(name)\n	}","	for env := &self; env != nil; env = env.parent {\n		delete(env.pairs, name)\n	}"),
("R-setex",'C14',EV,"	if exists && old.Raw == val {\n		return\n	}\n	self.pairs[name] = EnvVal{val, isArg, isSysArg}\n	return","	if !exists || old.Raw != val {\n		self.pairs[name] = EnvVal{val, isArg, isSysArg}\n	}\n	return old"),
("R-runone",'C14',E,[("		i, succeeded, breakAtNext = self.executeCmd(cc, bootstrap, cmd, cmdEnv, mask, flow, i,\n			breakAtNext, i+1 == len(flow.Cmds))","		i, succeeded, breakAtNext = self.runOne(cc, bootstrap, cmd, env, mask, flow, i, breakAtNext)"),("		cmdEnv := env\n		if cc.ForestMode.AtForestTopLvl(env) {\n			cmdEnv = env.Clone()\n		}\n",""),("func (self *Executor) executeCmd(","func (self *Executor) runOne(cc *model.Cli, bootstrap bool, cmd model.ParsedCmd, env *model.Env, mask *model.ExecuteMask,\n	flow *model.ParsedCmds, i int, breakAtNext bool) (int, bool, bool) {\n	if cc.ForestMode.AtForestTopLvl(env) {\n		env = env.Clone()\n	}\n	return self.executeCmd(cc, bootstrap, cmd, env, mask, flow, i, breakAtNext, i+1 == len(flow.Cmds))\n}\n\nfunc (self *Executor) executeCmd(")]),
("R-leave-helper",'C14',E,[("	defer func() {\n		if cc.ForestMode.AtForestTopLvl(env) {\n			cc.ForestMode.Pop(env)\n		}\n	}()","	defer leaveForest(cc, env)"),("func (self *Executor) executeCmd(","func leaveForest(cc *model.Cli, env *model.Env) {\n	if !cc.ForestMode.AtForestTopLvl(env) {\n		return\n	}\n	cc.ForestMode.Pop(env)\n}\n\nfunc (self *Executor) executeCmd(")]),
("R-restore-always",'C14',E,[("			if !succeeded {\n				restore()\n			}","			restore()"),("	if !bootstrap && !crossProcessInnerCall {\n		stackStepOut(caller, self.callerNameEntry, env)\n	}\n	return true","	return true"),("func stackStepOut(","func StackStepOut(")]),
("R-sess-helper",'C14','pkg/mods/builtin/misc.go',[("	env = env.GetLayer(model.EnvLayerSession)\n	val := fmt","	env = sessionOf(env)\n	val := fmt"),("func TimerBegin(","func sessionOf(env *model.Env) *model.Env {\n	return env.GetLayer(model.EnvLayerSession)\n}\n\nfunc TimerBegin(")]),
("R-subflow-helper",'C14',C,[("	flowEnv := env.NewLayer(EnvLayerSubFlow)","	flowEnv := subFlowEnv(env)"),("func (self *Cmd) executeFileNFlow(","func subFlowEnv(env *Env) *Env {\n	return env.NewLayer(EnvLayerSubFlow)\n}\n\nfunc (self *Cmd) executeFileNFlow(")]),
])
