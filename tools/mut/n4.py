from m import batch
C='pkg/core/model/cmd.go'; PC='pkg/core/parser/cmd.go'; PE='pkg/core/parser/env.go'; PS='pkg/core/parser/sequence.go'; PM='pkg/core/parser/cmds.go'; CT='pkg/core/model/cmds.go'; EA='pkg/core/model/env_abbr.go'; MR='pkg/mods/persist/mod_meta/mod_reg.go'
batch([
('c16-trivsegs','C16',PC,"			stripped := strings.TrimLeft(input[0], \"^\")\n			trivialLvl += len(input[0]) - len(stripped)\n			if len(stripped) == 0 {","			stripped := strings.TrimLeft(input[0], \"^\")\n			trivialLvl += len(input[0]) - len(stripped)\n			if len(stripped) == 0 || trivialLvl > 1 {"),
('c16-envlost','C16',PC,"	if !curr.IsEmpty() {\n		parsed.Segments = append(parsed.Segments, curr)\n	}\n\n	parsed.ParseResult","	if !curr.IsEmpty() && (err == nil || len(curr.Env) == 0) {\n		parsed.Segments = append(parsed.Segments, curr)\n	}\n\n	parsed.ParseResult"),
('c16-pre-args','C16',PE,"			for ; i < len(rest) && i < len(names); i += 1 {","			for ; i < len(rest); i += 1 {\n				if i >= len(names) {\n					continue\n				}"),
('c16-notmultiple','C16',PE,"			if rest[i+1] != self.kvSep {\n				return tryTrimParsedEnv(env), genResult(i)\n			}\n			key := rest[i]","			if rest[i+1] != self.kvSep {\n				i -= 2\n				continue\n			}\n			key := rest[i]"),
('c16-realname','C16',PE,"			key = args.Realname(rest[i])\n			if len(key) == 0 {\n				return tryTrimParsedEnv(env), genResult(i)\n			}","			key = args.Realname(rest[i])\n			if len(key) == 0 && len(value) == 0 {\n				continue\n			}\n			if len(key) == 0 {\n				return tryTrimParsedEnv(env), genResult(i)\n			}"),
('c16-tail','C16',PE,"		if rightLen != len(it)-k {\n			tailOfIt","		if rightLen != len(it)-k && i+1 < len(input) {\n			tailOfIt"),
('c16-k0','C16',PE,"		if k != 0 {\n			env = append(env, strings.Trim(it[0:k], self.spaces))\n		}","		if k != 0 && len(env) != 0 {\n			env = append(env, strings.Trim(it[0:k], self.spaces))\n		}"),
('c16-merge','C16',PC,"			if curr.Env != nil {\n				curr.Env.Merge(env)","			if curr.Env != nil {\n				curr.Env = env"),
('c16-rest','C16',PE,"	if len(envRest) != 0 {\n		return nil","	if len(envRest) > 1 {\n		return nil"),
('c16-break','C16',PC,"			if len(input) != 0 {\n				var errStr string","			if len(input) != 0 && len(input[0]) != 0 {\n				var errStr string"),
('c16-isminor','C16',PC,"	parsed.ParseResult = model.ParseResult{input, err, isMinorErr}","	if isMinorErr && len(curr.Env) != 0 {\n		err = nil\n	}\n	parsed.ParseResult = model.ParseResult{input, err, isMinorErr}"),
('c16-seqempty','C16',PS,"			curr = append(curr, arg)\n","			if len(arg) != 0 || len(curr) != 0 {\n				curr = append(curr, arg)\n			}\n"),
('c16-seqlast','C16',PS,"	parsed = append(parsed, curr)\n	//}\n	return","	if len(curr) > 1 || len(parsed) == 0 {\n		parsed = append(parsed, curr)\n	}\n	return"),
('c16-sep','C16',PC,"			head := strings.TrimRight(input[0][0:i], self.cmdSpaces)\n			rest := strings.TrimLeft(input[0][i+1:], self.cmdAlterSeps+self.cmdSpaces)","			head := strings.TrimRight(input[0][0:i], self.cmdSpaces)\n			rest := strings.Trim(input[0][i+1:], self.cmdAlterSeps+self.cmdSpaces)\n			if j := strings.IndexAny(rest, self.cmdSpaces); j > 0 {\n				rest = rest[:j]\n			}"),
('c12-addsub','C12',CT,"	if old, ok := self.subs[name]; ok && old.name != name {\n		err := &CmdTreeErrSubCmdConflicted{","	if old, ok := self.subs[name]; ok && old.name != name && len(old.source) != 0 {\n		err := &CmdTreeErrSubCmdConflicted{"),
('c12-abbr','C12',EA,"		if ok {\n			panic(fmt.Errorf(\n				\"[EnvAbbrs.AddSubAbbrs]","		if ok && old != \"\" && len(abbrs) != 0 && abbr != name {\n			panic(fmt.Errorf(\n				\"[EnvAbbrs.AddSubAbbrs]"),
('c12-reg','C12',MR,"	if cmd == old && mod.Source() != source && !cmd.IsTotallyEmpty() {","	if cmd == old && mod.Source() != source && !cmd.IsTotallyEmpty() && len(cmd.Tags()) == 0 {"),
('c12-reg2','C12',MR,"	if cmd == old && mod.Source() != source && !cmd.IsTotallyEmpty() {\n		// The","	if cmd == old && mod.Source() != source && !cmd.IsTotallyEmpty() {\n		regTags(meta, mod)\n		// The"),
('c12-regsrc','C12',MR,"	old := mod.Cmd()\n	cmd := regMod(","	old := mod.Cmd()\n	mod.SetSource(source)\n	cmd := regMod("),
('c12-regfirst','C12',MR,"		for _, abbr := range fields {\n			abbrs = append(abbrs, strings.TrimSpace(abbr))\n		}","		for _, abbr := range fields {\n			abbrs = append(abbrs, abbr)\n		}"),
('c12-virtual','C12',MR,"		path := getVirtualFileCmdPath(meta.VirtualPath, flowExt, cc.Cmds.Strs.PathSep)\n","		path := getVirtualFileCmdPath(meta.VirtualPath, flowExt, cc.Cmds.Strs.PathSep)\n		if cc.Cmds.GetSub(path...) != nil {\n			return\n		}\n"),
('c12-recover','C12',MR,"		if err := recover(); err != nil {\n			cc","		if err := recover(); err != nil && len(metaPath) != 0 {\n			cc"),
('c18-argorder','C18',C,"	for _, k := range self.args.Names() {\n		args = append(args, argv[k].Raw)\n	}\n	cmd := exec","	for _, k := range self.args.Names() {\n		if !argv[k].Provided && len(argv[k].Raw) == 0 && self.args.IsFromAutoMapAll(k) {\n			continue\n		}\n		args = append(args, argv[k].Raw)\n	}\n	cmd := exec"),
('c18-runner','C18',C,"			args = append(args, fields[1:]...)","			args = append(args, fields[1:]...)\n			args = append(args, self.cmdLine)"),
('c18-noload','C18',C,"	if len(sessionPath) != 0 {\n		LoadEnvFromFile(env","	if len(sessionPath) != 0 && err == nil {\n		LoadEnvFromFile(env"),
('c18-layer','C18',C,"		LoadEnvFromFile(env.GetLayer(EnvLayerSession), sessionPath","		LoadEnvFromFile(env, sessionPath"),
('c18-realname','C18',PE,"				env[key] = model.NewParsedEnvArgv(rest[i], value)\n				curr += 1","				if _, ok := env[key]; !ok {\n					env[key] = model.NewParsedEnvArgv(rest[i], value)\n				}\n				curr += 1"),
('c18-cutarg','C18',MR,"			i := strings.LastIndex(defVal, \"(\")","			i := strings.Index(defVal, \"(\")"),
('c18-defcut','C18',MR,"				defVal = strings.TrimSpace(defVal[:i])","				defVal = strings.TrimSpace(enums[0])"),
('c18-arg2env','C18',MR,"		writes = meta.GetSection(\"env.arg\")\n	}\n	if writes == nil {\n		writes = meta.GetSection(\"arg2env\")\n	}","		writes = meta.GetSection(\"env.arg\")\n	}"),
('c17-kwp','C17','pkg/mods/persist/meta_file/meta_file.go',"	sort.Strings(","	_ = sort.Strings; noop("),
])
