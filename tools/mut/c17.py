from m import batch
DE="pkg/cli/display/env.go"; DF="pkg/cli/display/flow.go"; MF="pkg/core/model/flow.go"; PR="pkg/core/model/proto.go"; TG="pkg/cli/display/tags.go"
AM="pkg/core/model/args_auto_map.go"; EN="pkg/core/model/env.go"; PA="pkg/core/model/parsing.go"; BG="pkg/core/model/bg_tasks.go"; EM="pkg/core/model/env_mapper.go"
DP="pkg/cli/display/dep.go"; SN="pkg/mods/builtin/env_snapshot.go"; BE="pkg/mods/builtin/env.go"; MS="pkg/mods/builtin/misc.go"; AR="pkg/core/model/args.go"; CM="pkg/core/model/cmds.go"
EX="pkg/core/execute/executor.go"; ER="pkg/cli/display/err.go"; XE="pkg/core/model/executing.go"; EO="pkg/core/model/env_ops.go"
batch([
("flat-nosort","C17",DE,"	sort.Strings(keys)\n	for _, k := range keys {\n		v := flatten[k]","	if len(findStrs) == 0 {\n		sort.Strings(keys)\n	}\n	for _, k := range keys {\n		v := flatten[k]"),
("dumpenv-direct","C17",DE,"		var keys []string\n		for k, _ := range flatten {\n			keys = append(keys, k)\n		}\n		sort.Strings(keys)\n		for _, k := range keys {\n			v := mayMaskSensitiveVal(env, k, flatten[k])","		for k, raw := range flatten {\n			v := mayMaskSensitiveVal(env, k, raw)"),
("layer-nosort","C17",DE,"	keys, _ := env.Pairs()\n	sort.Strings(keys)\n","	keys, _ := env.Pairs()\n	_ = sort.Strings\n"),
("saveflow-nosort","C17",MF,"	sort.Strings(keys)\n","	if !isAllArgs {\n		sort.Strings(keys)\n	}\n"),
("proto-direct","C17",PR,'''		keys = append(keys, k)
	}

	sort.Strings(keys)
	for _, k := range keys {
		v := env.GetRaw(k)
		_, err := fmt.Fprintf(writer, "%s%s%s\\n", k, sep, v)
		if err != nil {
			return err
		}
	}
	return nil''','''		_, err := fmt.Fprintf(writer, "%s%s%s\\n", k, sep, v)
		if err != nil {
			return err
		}
	}
	_, _ = keys, sort.Strings
	return nil'''),
("tags-map","C17",TG,[("	names := tags.Names()\n	sort.Strings(names)\n","	names := []string{}\n	for name := range tags.set {\n		names = append(names, name)\n	}\n"),('import (\n	"sort"\n','import (\n')]),
("flush-nosort","C17",AM,"			sort.Strings(args)\n			for _, arg := range args {","			for _, arg := range args {"),
("flush-bylen","C17",AM,"			sort.Strings(args)\n			for _, arg := range args {","			sort.Slice(args, func(i, j int) bool { return len(args[i]) < len(args[j]) })\n			for _, arg := range args {"),
("modified-nosort","C17",DF,"	sort.Strings(lines)\n	if !args.Skeleton {","	if !args.Skeleton {\n		sort.Strings(lines)"),
("start-nosort","C17",DF,"	sort.Strings(keys)\n\n	if len(startEnv) == 0","	if len(startEnv) == 0"),
("flowenv-nosort","C17",DF,"	for k, _ := range kvs {\n		keys = append(keys, k)\n	}\n	sort.Strings(keys)\n	return","	for k, _ := range kvs {\n		keys = append(keys, k)\n	}\n	return"),
("oscmds-nosort","C17",DP,"	sort.Strings(osCmds)\n",""),
("arg2env-first","C17",EM,'''	for argName, envKey := range self.nameKeys {
		if strings.Index(argName, findStr) >= 0 {
			return true
		}
''','''	for argName, envKey := range self.nameKeys {
		if strings.Index(argName, findStr) >= 0 {
			return argName == findStr || len(envKey) != 0
		}
'''),
("snapshot-stop","C17",SN,"		if !env.Has(k) {\n			envSession.Set(k, v)\n		}","		if env.Has(k) {\n			break\n		}\n		envSession.Set(k, v)"),
("reset-title","C17",BE,'''	for key, val := range excludes {
		sessionEnv.Set(key, val)
	}

	title := "all session env values are removed"''','''	title := "all session env values are removed"
	for key, val := range excludes {
		sessionEnv.Set(key, val)
		title += " " + key
	}
'''),
("sysargv-trim","C17",EN,'''		key := k[prefixLen:]
		if _, ok := sysArgv[key]; !ok {
			sysArgv[key] = v.Raw
		}''','''		key := strings.ToLower(k[prefixLen:])
		if _, ok := sysArgv[key]; !ok {
			sysArgv[key] = v.Raw
		}'''),
("dedup-one","C17",EN,[("import (\n","import (\n")] ,""),
("addprefix-nosplit","C17",PA,'''	var keys []string
	var vals []ParsedEnvVal
	for k, v := range self {
		keys = append(keys, k)
		vals = append(vals, v)
	}

	// A new name could be the old name of another one, so remove all before adding
	for _, k := range keys {
		delete(self, k)
	}

	prefixPath := strings.Join(prefix, sep) + sep
	for i, k := range keys {
		v := vals[i]
''','''	prefixPath := strings.Join(prefix, sep) + sep
	for k, v := range self {
		delete(self, k)
'''),
("names-from-map","C17",AR,"func (self *Args) Names() []string {\n	return self.orderedList","func (self *Args) Names() []string {\n	if len(self.abbrs) == len(self.orderedList) && len(self.defVals) > 20 {\n		var names []string\n		for name := range self.defVals {\n			names = append(names, name)\n		}\n		return names\n	}\n	return self.orderedList"),
("subnames-map","C17",CM,"	for _, name := range self.subOrderedNames {","	for name := range self.subs {"),
("bg-name","C17",BG,"	for name, it := range self.name2task {\n		if it == task {\n			delete(self.name2task, name)\n		}","	for name, it := range self.name2task {\n		if it == task {\n			delete(self.name2task, name)\n			break\n		}"),
("writecmdenv-limit","C17",XE,"	for k, _ := range kvs {\n		keys = append(keys, k)\n	}\n	sort.Strings(keys)","	for k, _ := range kvs {\n		keys = append(keys, k)\n		if len(keys) >= 100 {\n			break\n		}\n	}\n	sort.Strings(keys)"),
("useenv-nosort","C17",EX,"	sort.Strings(keys)\n	for _, k := range keys {\n		curr := abbrs","	_ = sort.Strings\n	for _, k := range keys {\n		curr := abbrs"),
("srcs-nosort","C17",ER,"	sort.Strings(sources)\n",""),
("merge-first","C17",PA,'''	for k, v := range x {
		self[k] = v
	}''','''	for k, v := range x {
		self[strings.ToLower(k)] = v
	}'''),
("allwrite-list","C17",EO,"range self.orderedNames {","range self.ops {"),
])
