from m import batch
DE="pkg/cli/display/env.go"; DF="pkg/cli/display/flow.go"; MF="pkg/core/model/flow.go"; PR="pkg/core/model/proto.go"; TG="pkg/cli/display/tags.go"
AM="pkg/core/model/args_auto_map.go"; EN="pkg/core/model/env.go"; PA="pkg/core/model/parsing.go"; BG="pkg/core/model/bg_tasks.go"; EM="pkg/core/model/env_mapper.go"
DP="pkg/cli/display/dep.go"; SN="pkg/mods/builtin/env_snapshot.go"; BE="pkg/mods/builtin/env.go"; MS="pkg/mods/builtin/misc.go"; AR="pkg/core/model/args.go"; CM="pkg/core/model/cmds.go"
XE="pkg/core/model/executing.go"; EO="pkg/core/model/env_ops.go"
KEYS="		var keys []string\n		for k, _ := range flatten {\n			keys = append(keys, k)\n		}\n		sort.Strings(keys)\n		for _, k := range keys {\n			v := mayMaskSensitiveVal(env, k, flatten[k])"
batch([
("helper","C17",DE,[(KEYS,"		keys := sortedKeysOf(flatten)\n		for _, k := range keys {\n			v := mayMaskSensitiveVal(env, k, flatten[k])"),("func dumpEnv(","func sortedKeysOf(m map[string]string) []string {\n	keys := make([]string, 0, len(m))\n	for k := range m {\n		keys = append(keys, k)\n	}\n	sort.Strings(keys)\n	return keys\n}\n\nfunc dumpEnv(")]),
("helper-unsorted","C17",DE,[(KEYS,"		keys := keysOf(flatten)\n		sort.Strings(keys)\n		for _, k := range keys {\n			v := mayMaskSensitiveVal(env, k, flatten[k])"),("func dumpEnv(","func keysOf(m map[string]string) []string {\n	keys := make([]string, 0, len(m))\n	for k := range m {\n		keys = append(keys, k)\n	}\n	return keys\n}\n\nfunc dumpEnv(")]),
("helper-indexed","C17",DE,[(KEYS,"		keys := keysOf(flatten)\n		sort.Strings(keys)\n		for _, k := range keys {\n			v := mayMaskSensitiveVal(env, k, flatten[k])"),("func dumpEnv(","func keysOf(m map[string]string) []string {\n	keys := make([]string, len(m))\n	i := 0\n	for k := range m {\n		keys[i] = k\n		i++\n	}\n	return keys\n}\n\nfunc dumpEnv(")]),
("helper-out","C17",DE,[(KEYS,"		var keys []string\n		keysInto(flatten, &keys)\n		sort.Strings(keys)\n		for _, k := range keys {\n			v := mayMaskSensitiveVal(env, k, flatten[k])"),("func dumpEnv(","func keysInto(m map[string]string, keys *[]string) {\n	for k := range m {\n		*keys = append(*keys, k)\n	}\n}\n\nfunc dumpEnv(")]),
("sort-slice","C17",DE,"		sort.Strings(keys)\n		for _, k := range keys {\n			v := mayMask","		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })\n		for _, k := range keys {\n			v := mayMask"),
("sort-if","C17",DE,"		sort.Strings(keys)\n		for _, k := range keys {\n			v := mayMask","		if len(keys) > 1 {\n			sort.Strings(keys)\n		}\n		for _, k := range keys {\n			v := mayMask"),
("sort-if2","C17",DE,"		sort.Strings(keys)\n		for _, k := range keys {\n			v := mayMask","		if !sort.StringsAreSorted(keys) {\n			sort.Strings(keys)\n		}\n		for _, k := range keys {\n			v := mayMask"),
("exists","C17",EM,'''	for argName, envKey := range self.nameKeys {
		if strings.Index(argName, findStr) >= 0 {
			return true
		}
		if strings.Index(envKey, findStr) >= 0 {
			return true
		}
	}
	return false''','''	found := false
	for argName, envKey := range self.nameKeys {
		if strings.Contains(argName, findStr) || strings.Contains(envKey, findStr) {
			found = true
			break
		}
	}
	return found'''),
("exists-cnt","C17",AR,'''	for k, _ := range self.abbrsRevIdx {
		if strings.Index(k, findStr) >= 0 {
			return true
		}
	}
	return false''','''	matched := 0
	for k, _ := range self.abbrsRevIdx {
		if strings.Index(k, findStr) >= 0 {
			matched += 1
		}
	}
	return matched > 0'''),
("exists-helper","C17",AR,[('''		if strings.Index(k, findStr) >= 0 {
			return true
		}
	}
	return false''','''		if argNameMatches(k, findStr) {
			return true
		}
	}
	return false'''),("func (self Args) MatchFind(","func argNameMatches(name string, findStr string) bool {\n	return strings.Contains(name, findStr)\n}\n\nfunc (self Args) MatchFind(")]),
("allargs","C17",MF,'''	isAllArgs := true
	var keys []string
	for k, v := range env {
		if !v.IsArg {
			isAllArgs = false
		}
		keys = append(keys, k)
	}
''','''	argCnt := 0
	keys := make([]string, 0, len(env))
	for k, v := range env {
		keys = append(keys, k)
		if v.IsArg {
			argCnt++
		}
	}
	isAllArgs := argCnt == len(env)
'''),
("allargs2","C17",MF,'''		if !v.IsArg {
			isAllArgs = false
		}
''','''		isAllArgs = isAllArgs && v.IsArg
'''),
("flush-swap","C17",AM,"			var args []string\n			for arg, _ := range self.cache {\n				args = append(args, arg)\n			}\n			sort.Strings(args)","			args := make([]string, len(self.cache))\n			n := 0\n			for arg := range self.cache {\n				args[n] = arg\n				n++\n			}\n			sort.Sort(sort.StringSlice(args))"),
("modified-two","C17",DF,"	lines := []string{}\n	for k, v := range startEnv {","	lines := make([]string, 0, len(startEnv))\n	for k, v := range startEnv {"),
("reset-count","C17",BE,'''	for key, val := range excludes {
		sessionEnv.Set(key, val)
	}

	title :=''','''	n := 0
	for key, val := range excludes {
		sessionEnv.Set(key, val)
		n++
	}
	_ = n

	title :='''),
("snap-continue","C17",SN,"		if !env.Has(k) {\n			envSession.Set(k, v)\n		}","		if env.Has(k) {\n			continue\n		}\n		envSession.Set(k, v)"),
("snap-helper","C17",SN,[("		if !env.Has(k) {\n			envSession.Set(k, v)\n		}","		setIfMissing(env, envSession, k, v)"),("func getEnvSnapshotDir(","func setIfMissing(env *model.Env, target *model.Env, k string, v string) {\n	if !env.Has(k) {\n		target.Set(k, v)\n	}\n}\n\nfunc getEnvSnapshotDir(")]),
("sysargv-pre","C17",EN,'''		key := k[prefixLen:]
		if _, ok := sysArgv[key]; !ok {
			sysArgv[key] = v.Raw
		}''','''		key := k[prefixLen:]
		_, exists := sysArgv[key]
		if exists {
			continue
		}
		sysArgv[key] = v.Raw'''),
("equal-flag","C17",PA,'''	for k, v := range x {
		if self[k].Val != v.Val {
			return false
		}
	}
	return true''','''	equal := true
	for k, v := range x {
		if self[k].Val != v.Val {
			equal = false
		}
	}
	return equal'''),
("writeto-helper","C17",PA,[('''	for k, v := range self {
		if v.Val == valDelAllMark {
			env.Delete(k)
		} else {
			env.SetEx(k, v.Val, v.IsArg, v.IsSysArg)
		}
	}
}
''','''	for k, v := range self {
		v.writeTo(env, k, valDelAllMark)
	}
}

func (self ParsedEnvVal) writeTo(env *Env, key string, valDelAllMark string) {
	if self.Val == valDelAllMark {
		env.Delete(key)
		return
	}
	env.SetEx(key, self.Val, self.IsArg, self.IsSysArg)
}
''')]),
("addprefix-newmap","C17",PA,'''	// A new name could be the old name of another one, so remove all before adding
	for _, k := range keys {
		delete(self, k)
	}

	prefixPath := strings.Join(prefix, sep) + sep
''','''	for i := range keys {
		delete(self, keys[i])
	}
	prefixPath := strings.Join(prefix, sep) + sep
'''),
("dep-missed","C17",DP,"	for osCmd, _ := range deps {\n","	osCmds = make([]string, 0, len(deps))\n	for osCmd := range deps {\n"),
("maxlen","C17",DE,"		sort.Strings(keys)\n		for _, k := range keys {\n			v := mayMask","		sort.Strings(keys)\n		maxLen := 0\n		for k := range flatten {\n			if len(k) > maxLen {\n				maxLen = len(k)\n			}\n		}\n		_ = maxLen\n		for _, k := range keys {\n			v := mayMask"),
("copymap","C17",DF,"	for k, v := range flatten {\n		kvs[k] =","	merged := map[string]string{}\n	for k, v := range flatten {\n		merged[k] = v\n	}\n	for k, v := range merged {\n		kvs[k] ="),
("pairs-struct","C17",PR,'''	var keys []string
	for k, v := range flatten {
		if skipDefault && defEnv.GetRaw(k) == v {
			continue
		}
		keys = append(keys, k)
	}

	sort.Strings(keys)
	for _, k := range keys {
		v := env.GetRaw(k)
''','''	type pair struct {
		key string
		val string
	}
	var pairs []pair
	for k, v := range flatten {
		if skipDefault && defEnv.GetRaw(k) == v {
			continue
		}
		pairs = append(pairs, pair{k, v})
	}

	sort.Slice(pairs, func(i, j int) bool { return pairs[i].key < pairs[j].key })
	for _, it := range pairs {
		k := it.key
		v := env.GetRaw(k)
'''),
("lines-buf","C17",PR,'''	sort.Strings(keys)
	for _, k := range keys {
		v := env.GetRaw(k)
		_, err := fmt.Fprintf(writer, "%s%s%s\\n", k, sep, v)
		if err != nil {
			return err
		}
	}
	return nil''','''	sort.Strings(keys)
	var lines []string
	for _, k := range keys {
		lines = append(lines, k+sep+env.GetRaw(k)+"\\n")
	}
	_, err := fmt.Fprint(writer, strings.Join(lines, ""))
	return err'''),
("lines-map-sorted","C17",PR,'''	var keys []string
	for k, v := range flatten {
		if skipDefault && defEnv.GetRaw(k) == v {
			continue
		}
		keys = append(keys, k)
	}

	sort.Strings(keys)
	for _, k := range keys {
		v := env.GetRaw(k)
		_, err := fmt.Fprintf(writer, "%s%s%s\\n", k, sep, v)
		if err != nil {
			return err
		}
	}
	return nil''','''	var keys []string
	vals := map[string]string{}
	for k, v := range flatten {
		if skipDefault && defEnv.GetRaw(k) == v {
			continue
		}
		vals[k] = env.GetRaw(k)
		keys = append(keys, k)
	}

	sort.Strings(keys)
	for i := 0; i < len(keys); i++ {
		if _, err := fmt.Fprintf(writer, "%s%s%s\\n", keys[i], sep, vals[keys[i]]); err != nil {
			return err
		}
	}
	return nil'''),
("filter-func","C17",EN,[('''		filtered := false
		for _, filterPrefix := range filterPrefixs {
			if len(filterPrefix) != 0 && strings.HasPrefix(k, filterPrefix) {
				filtered = true
				break
			}
		}
		if !filtered {
			if !filterArgs''','''		if !hasAnyPrefix(k, filterPrefixs) {
			if !filterArgs'''),("func IsSensitiveKeyVal(","func hasAnyPrefix(key string, prefixs []string) bool {\n	for _, prefix := range prefixs {\n		if len(prefix) != 0 && strings.HasPrefix(key, prefix) {\n			return true\n		}\n	}\n	return false\n}\n\nfunc IsSensitiveKeyVal(")]),
("closure-each","C17",DE,[(KEYS,"		eachSorted(flatten, func(k string, raw string) {\n			v := mayMaskSensitiveVal(env, k, raw)"),("			extraLens = append(extraLens, ColorExtraLen(env, \"key\", \"symbol\"))\n		}\n	} else {","			extraLens = append(extraLens, ColorExtraLen(env, \"key\", \"symbol\"))\n		})\n	} else {"),("func dumpEnv(","func eachSorted(m map[string]string, f func(k string, v string)) {\n	var keys []string\n	for k := range m {\n		keys = append(keys, k)\n	}\n	sort.Strings(keys)\n	for _, k := range keys {\n		f(k, m[k])\n	}\n}\n\nfunc dumpEnv(")]),
("rm-while","C17",BG,"	for name, it := range self.name2task {\n		if it == task {\n			delete(self.name2task, name)\n		}\n	}","	var names []string\n	for name, it := range self.name2task {\n		if it == task {\n			names = append(names, name)\n		}\n	}\n	for _, name := range names {\n		delete(self.name2task, name)\n	}"),
])
