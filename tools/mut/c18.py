from m import batch
M='pkg/core/model/'
batch([
('prov-empty','C18',M+'env.go','		if ok {\n			argv[it] = ArgVal{val.Raw, true, i}','		if ok && len(val.Raw) != 0 {\n			argv[it] = ArgVal{val.Raw, true, i}'),
('prov-flag','C18',M+'env.go','ArgVal{args.DefVal(it, stackDepth), false, i}','ArgVal{args.DefVal(it, stackDepth), ok || it != "", i}'),
('rawdef','C18',M+'env.go','ArgVal{args.DefVal(it, stackDepth), false, i}','ArgVal{args.RawDefVal(it), false, i}'),
('key-nopath','C18',M+'env.go','key := strings.Join(append(cmdPath, it), sep)','key := it'),
('skip-noval','C18',M+'env.go','		} else {\n			argv[it] = ArgVal{args.DefVal','		} else if len(args.DefVal(it, stackDepth)) != 0 {\n			argv[it] = ArgVal{args.DefVal'),
('depth0','C18',M+'args.go','if self.fromAutoMapAll[name] && stackDepth > 1','if self.fromAutoMapAll[name] && stackDepth > 0'),
('noauto','C18',M+'args.go','if self.fromAutoMapAll[name] && stackDepth > 1','if stackDepth > 1'),
('enumdef','C18',M+'args.go','	return self.defVals[name]\n}\n\nfunc (self *Args) RawDefVal','	if e := self.enums[name]; len(e) > 0 {\n		return e[0]\n	}\n	return self.defVals[name]\n}\n\nfunc (self *Args) RawDefVal'),
('script-skip-empty','C18',M+'cmd.go','		args = append(args, argv[k].Raw)','		if len(argv[k].Raw) == 0 {\n			continue\n		}\n		args = append(args, argv[k].Raw)'),
('script-order','C18',M+'cmd.go','	args = append(args, self.cmdLine)\n	args = append(args, sessionDir)','	args = append(args, sessionDir)\n	args = append(args, self.cmdLine)'),
('script-nosess','C18',M+'cmd.go','	args = append(args, sessionDir)\n','	if !self.flags.noSession {\n		args = append(args, sessionDir)\n	}\n'),
('script-stop','C18',M+'cmd.go','		args = append(args, argv[k].Raw)','		if !argv[k].Provided {\n			break\n		}\n		args = append(args, argv[k].Raw)'),
('noload-onerr','C18',M+'cmd.go','	if len(sessionPath) != 0 {\n		LoadEnvFromFile','	if err == nil && len(sessionPath) != 0 {\n		LoadEnvFromFile'),
('load-other','C18',M+'cmd.go','LoadEnvFromFile(env.GetLayer(EnvLayerSession), sessionPath','LoadEnvFromFile(env, sessionPath'),
('nosave','C18',M+'cmd.go','	if !self.flags.noSession {\n		sessionDir, sessionPath','	if !self.flags.noSession && len(self.args.Names()) != 0 {\n		sessionDir, sessionPath'),
('map-over','C18',M+'parsing.go','		if !val.Provided && inEnv {\n			continue\n		}\n','		if !val.Provided && inEnv && len(env.GetRaw(key)) != 0 {\n			continue\n		}\n'),
('map-never','C18',M+'parsing.go','		if !val.Provided && inEnv {','		if inEnv {'),
('map-provempty','C18',M+'parsing.go','		if !val.Provided && len(val.Raw) == 0 {','		if len(val.Raw) == 0 {'),
('map-break','C18',M+'parsing.go','		if !hasMapping {\n			continue\n		}\n		// If','		if !hasMapping {\n			return\n		}\n		// If'),
('map-layer','C18',M+'parsing.go','	ApplyArg2Env(sessionEnv, last, argv)','	ApplyArg2Env(env, last, argv)'),
('argv-origin','C18',M+'parsing.go','argv = env.GetArgv(self.Path()','argv = originEnv.GetArgv(self.Path()'),
('templ-argfirst','C18',M+'template.go','		val, ok := env.GetEx(key)\n		valStr = val.Raw\n		if !ok {\n			val, inArg := argv[key]\n			valStr = val.Raw\n			ok = inArg && len(valStr) != 0\n		}\n','		val, ok := env.GetEx(key)\n		valStr = val.Raw\n		if arg, inArg := argv[key]; inArg && (arg.Provided || !ok) {\n			valStr = arg.Raw\n			ok = len(valStr) != 0\n		}\n'),
('templ-empty','C18',M+'template.go','			ok = inArg && len(valStr) != 0\n		}\n		if !ok {\n			valStr, ok','			ok = inArg\n		}\n		if !ok {\n			valStr, ok'),
('templ-nopanic','C18',M+'template.go','			if allowError {\n				findPos','			if allowError || cmd.IsQuiet() {\n				findPos'),
('noapply','C18','pkg/core/execute/executor.go','				cmdEnv, argv = cmd.ApplyMappingGenEnvAndArgv(\n					env, cc','				cmdEnv, _ = cmd.ApplyMappingGenEnvAndArgv(\n					env, cc'),
('noapply2','C18','pkg/core/execute/executor.go','				cmdEnv, argv = cmd.ApplyMappingGenEnvAndArgv(\n					env, cc','				cmdEnv, argv = cmd.ApplyMappingGenEnvAndArgv(\n					env.Clone(), cc'),
('templ-mult','C18',M+'template.go','	val, ok := env.GetEx(key)\n	valStr = val.Raw\n	if !ok {\n		val, inArg','	val, ok := env.GetEx(key)\n	if !ok {\n		val, inArg'),
('posoff','C18','pkg/core/parser/env.go','				value := rest[i]\n','				value := rest[len(rest)-1]\n'),
('named2','C18','pkg/core/parser/env.go','				value := rest[i+1]\n','				value := rest[i]\n'),
('int-zero','C18',M+'argv.go','	intVal, err := strconv.Atoi(val.Raw)\n	if err != nil {','	intVal, err := strconv.Atoi(val.Raw)\n	if err != nil && val.Provided {'),
('uint-base','C18',M+'argv.go','strconv.ParseUint(val.Raw, 10, 64)','strconv.ParseUint(val.Raw, 0, 64)'),
('rename','C18','pkg/mods/builtin/builtin.go','AddArg("unfold-trivial", "0", "ut",','AddArg("unfold", "0", "ut", "unfold-trivial",'),
('defnum','C18','pkg/mods/builtin/builtin.go','	subMore.AddArg("depth", "0", "d")','	subMore.AddArg("depth", "all", "d")'),
('unread','C18','pkg/mods/builtin/dump_cmds.go','	source := argv.GetRaw("source")\n	if len(source) != 0 {\n		dumpArgs.SetSource(source)\n	}\n',''),
])
