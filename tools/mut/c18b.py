from m import batch
M='pkg/core/model/'
P='C18'
MM='pkg/mods/persist/mod_meta/mod_reg.go'
batch([
('addarg-trim',P,M+'args.go','	self.defVals[name] = defVal','	self.defVals[name] = strings.TrimSpace(defVal)'),
('addarg-order',P,M+'args.go','	self.orderedList = append(self.orderedList, name)','	if len(defVal) == 0 {\n		self.orderedList = append([]string{name}, self.orderedList...)\n	} else {\n		self.orderedList = append(self.orderedList, name)\n	}'),
('addauto',P,M+'args.go','	self.fromAutoMapAll[name] = true','	self.fromAutoMapAll[name] = len(defVal) != 0'),
('reorder-alias',P,M+'args.go','	self.orderedList = names\n}','	_ = names\n}'),
('reorder-idx',P,M+'args.go','		self.names[name] = i\n',''),
('names-sorted',P,M+'args.go','func (self *Args) Names() []string {\n	return self.orderedList','func (self *Args) Names() []string {\n	if len(self.fromAutoMapAll) > 0 && len(self.orderedList) > 1 {\n		return self.orderedList[1:]\n	}\n	return self.orderedList'),
('realname',P,M+'args.go','	name, _ := self.abbrsRevIdx[nameOrAbbr]\n	return name','	name, ok := self.abbrsRevIdx[nameOrAbbr]\n	if !ok {\n		return nameOrAbbr\n	}\n	return name'),
('a2e-add',P,M+'env_mapper.go','	self.nameKeys[argName] = envKey\n','	if len(self.nameKeys) == 0 || len(envKey) > 1 {\n		self.nameKeys[argName] = envKey\n	}\n'),
('a2e-get',P,M+'env_mapper.go','	envKey, ok := self.nameKeys[argName]\n	return envKey, ok','	envKey, ok := self.nameKeys[argName]\n	return envKey, ok && len(self.orderedKeys) > 1'),
('regargs-def',P,MM,'				defVal = strings.TrimSpace(defVal[:i])\n','				defVal = strings.TrimSpace(defVal[:i])\n				if len(defVal) == 0 && len(enums) > 0 {\n					defVal = enums[0]\n				}\n'),
('regargs-abbr',P,MM,'		cmd.AddArg(name, defVal, argAbbrs...)','		cmd.AddArg(name, defVal)'),
('envinput-first',P,M+'proto.go','		if val == delMark {\n			env.Delete(key)\n		} else {\n			env.Set(key, val)','		if val == delMark {\n			env.Delete(key)\n		} else if len(val) != 0 {\n			env.Set(key, val)'),
('load-noexist',P,M+'proto.go','		env.Set(key, val)','		if env.GetRaw(key) != "" || !env.Has(key) {\n			env.Set(key, val)\n		}'),
('savesess',P,M+'proto.go','	saveEnvToFile(env.GetLayer(EnvLayerSession), sessionPath','	saveEnvToFile(env, sessionPath'),
('savesess-skip',P,M+'proto.go','sessionPath, sep, filtered, skipDefault)\n	return','sessionPath, sep, filtered, true)\n	return'),
('writeto',P,M+'parsing.go','			env.SetEx(k, v.Val, v.IsArg, v.IsSysArg)\n		}\n	}\n}\n\nfunc (self ParsedEnv) WriteNot','			env.SetEx(k, strings.TrimSpace(v.Val), v.IsArg, v.IsSysArg)\n		}\n	}\n}\n\nfunc (self ParsedEnv) WriteNot'),
('genenv',P,M+'parsing.go','		if seg.Env != nil {\n			seg.Env.WriteTo(env','		if len(seg.Env) > 1 {\n			seg.Env.WriteTo(env'),
('genenv2',P,M+'parsing.go','			seg.Env.WriteTo(env, valDelAllMark)','			seg.Env.WriteNotArgTo(env, valDelAllMark)'),
('val2env-order',P,M+'parsing.go','	ApplyVal2Env(sessionEnv, last, argv)\n	ApplyArg2Env(sessionEnv, last, argv)','	ApplyArg2Env(sessionEnv, last, argv)\n	ApplyVal2Env(sessionEnv, last, argv)'),
('argv-isarg',P,M+'parsing.go','	return ParsedEnvVal{val, true, false, []string{key}, key}','	return ParsedEnvVal{val, len(val) != 0, false, []string{key}, key}'),
('argv-notarg',P,M+'parsing.go','	return ParsedEnvVal{val, true, false, []string{key}, key}','	return ParsedEnvVal{val, false, false, []string{key}, key}'),
('wnat',P,M+'parsing.go','} else if !v.IsArg {','} else if !v.IsArg && len(v.Val) != 0 {'),
('mark',P,M+'parsing.go','		if v.Val == valDelAllMark {\n			env.Delete(k)\n		} else {','		if v.Val == valDelAllMark || len(v.Val) == 0 {\n			env.Delete(k)\n		} else {'),
('abbr-drop',P,M+'args.go','		self.abbrsRevIdx[abbr] = name\n','		if len(abbr) < 2 || abbr == name {\n			self.abbrsRevIdx[abbr] = name\n		}\n'),
('sess-filter',P,M+'proto.go','		//"display.height",\n','		"display.height",\n'),
('flow-args',P,M+'cmd.go','	flow, _, _ := self.Flow(argv','	flow, _, _ := self.Flow(ArgVals{}'),
('parsedargv',P,M+'parsing.go','func NewParsedEnvArgv','func NewParsedEnvArgv0(key string, val string) ParsedEnvVal {\n	return ParsedEnvVal{val, true, false, []string{key}, key}\n}\nfunc NewParsedEnvArgv'),
('addprefix',P,M+'parsing.go','ParsedEnvVal{v.Val, v.IsArg, v.IsSysArg, matchedPath, ','ParsedEnvVal{v.Val, v.IsArg && len(keys) > 1, v.IsSysArg, matchedPath, '),
('run-argv',P,'pkg/core/execute/executor.go','last.Execute(argv,','last.Execute(argv.Clone(),'),
])
