from m import batch
A='pkg/cli/display/args.go'; EN='pkg/cli/display/env.go'; U='pkg/cli/display/utils.go'; F='pkg/cli/display/flow.go'; CM='pkg/cli/display/cmds.go'; B='pkg/mods/builtin/env.go'; M='pkg/core/model/env.go'
batch([
('eff-prov','C20',A,'line += mayQuoteStr(mayMaskSensitiveVal(env, k, v.Raw))','line += mayQuoteStr(v.Raw)'),
('eff-def','C20',A,'line += mayQuoteStr(mayMaskSensitiveVal(env, k, defV))','line += mayQuoteStr(defV)'),
('prov','C20',A,'val := mayQuoteStr(mayMaskSensitiveVal(env, k, v.Raw))','val := mayQuoteStr(v.Raw)'),
('sys','C20',A,'v := mayMaskSensitiveVal(env, k, sysArgv[k])','v := sysArgv[k]'),
('kv','C20',EN,'	value = mayMaskSensitiveVal(env, key, value)\n	return ColorKey(key, env) + ColorSymbol(" = ", env) + mayQuoteStr(value)\n','	return ColorKey(key, env) + ColorSymbol(" = ", env) + mayQuoteStr(value)\n'),
('kvex','C20',EN,'	value = mayMaskSensitiveVal(env, key, value)\n	return ColorKey(key, env) + ColorSymbol(" = ", env) + mayQuoteStr(value), extraLen','	return ColorKey(key, env) + ColorSymbol(" = ", env) + mayQuoteStr(value), extraLen'),
('kvex-if','C20',EN,'	value = mayMaskSensitiveVal(env, key, value)\n	return ColorKey(key, env) + ColorSymbol(" = ", env) + mayQuoteStr(value), extraLen','	if envKeysInfo == nil {\n		value = mayMaskSensitiveVal(env, key, value)\n	}\n	return ColorKey(key, env) + ColorSymbol(" = ", env) + mayQuoteStr(value), extraLen'),
('flat','C20',EN,'v := mayMaskSensitiveVal(env, k, flatten[k])','v := flatten[k]'),
('layer','C20',EN,'kvStr, extraLen := KeyValueDisplayStrEx(k, v.Raw, topEnv, envKeysInfo)','kvStr, extraLen := KeyValueDisplayStrEx("", v.Raw, topEnv, envKeysInfo)'),
('findprint','C20',EN,'screen.Print(KeyValueDisplayStr(k, v, env) + "\\n")','screen.Print(ColorKey(k, env) + " = " + v + "\\n")'),
('wrongkey','C20',EN,'value = mayMaskSensitiveVal(env, key, value)\n	return ColorKey(key, env) + ColorSymbol(" = ", env) + mayQuoteStr(value)\n','value = mayMaskSensitiveVal(env, value, value)\n	return ColorKey(key, env) + ColorSymbol(" = ", env) + mayQuoteStr(value)\n'),
('def','C20',CM,'				val = mayMaskSensitiveVal(env, nameStr, val)\n',''),
('abbr','C20',CM,'val = mayMaskSensitiveVal(env, nameStr, val)','val = mayMaskSensitiveVal(env, cicArgs.Abbrs(name)[len(cicArgs.Abbrs(name))-1], val)'),
('v2e','C20',CM,'				val = mayMaskSensitiveVal(env, k, val)\n',''),
('norm','C20',F,'	val = mayMaskSensitiveVal(env, key, val)\n	return mayQuoteMayTrimStr','	return mayQuoteMayTrimStr'),
('norm-limit','C20',F,'	val = mayMaskSensitiveVal(env, key, val)\n	return mayQuoteMayTrimStr','	if limit >= 0 {\n		val = mayMaskSensitiveVal(env, key, val)\n	}\n	return mayQuoteMayTrimStr'),
('start','C20',F,'prt(2, ColorKey(k, env)+ColorSymbol(" = ", env)+normalizeValForDisplay(k, startEnv[k], env, limit))','prt(2, ColorKey(k, env)+ColorSymbol(" = ", env)+mayQuoteMayTrimStr(startEnv[k], env, limit))'),
('start2','C20',F,'prt(1, "   "+ColorKey(k, env)+ColorSymbol(" = ", env)+normalizeValForDisplay(k, startEnv[k], env, limit))','prt(1, "   "+ColorKey(k, env)+ColorSymbol(" = ", env)+mayQuoteMayTrimStr(startEnv[k], env, limit))'),
('after','C20',F,'op = op + normalizeValForDisplay(k, afterV, env, limit-prefixLen)','op = op + mayQuoteMayTrimStr(afterV, env, limit-prefixLen)'),
('afterwrong','C20',F,'op = op + normalizeValForDisplay(k, afterV, env, limit-prefixLen)','op = op + normalizeValForDisplay(op, afterV, env, limit-prefixLen)'),
('added','C20',F,'normalizeValForDisplay(k, v, env, lineLimit-prefixLen)','mayQuoteMayTrimStr(v, env, lineLimit-prefixLen)'),
('fill','C20',F,'normalizeValForDisplay(k, v.Val, env, limit)','mayQuoteMayTrimStr(v.Val, env, limit)'),
('skel','C20',F,'normalizeValForDisplay(name, val.Raw, env, -1)','mayQuoteStr(val.Raw)'),
('mask-len','C20',U,'IsSensitiveKeyVal(key, val) && len(val) != 0','IsSensitiveKeyVal(key, val) && len(val) > 3'),
('mask-inv','C20',U,'if env.GetBool("display.sensitive") {','if !env.GetBool("display.sensitive") {'),
('mask-other','C20',U,'env.GetBool("display.sensitive")','env.GetBool("display.env")'),
('mask-part','C20',U,'val = "***"','val = val[:1] + "***"'),
('mask-empty','C20',U,'IsSensitiveKeyVal(key, val) && len(val) != 0','IsSensitiveKeyVal(key, val)'),
('mask-always','C20',U,'	if env.GetBool("display.sensitive") {\n		return val\n	}\n',''),
('word','C20',M,'		"passphrase",\n',''),
('case','C20',M,'	key = strings.ToLower(key)\n	for _, it := range sensitives','	for _, it := range sensitives'),
('prefix','C20',M,'strings.Index(key, it) >= 0','strings.Index(key, it) == 0'),
('gt','C20',M,'strings.Index(key, it) >= 0','strings.Index(key, it) > 0'),
('hassuffix','C20',M,'strings.Index(key, it) >= 0','strings.HasSuffix(key, it)'),
('bool','C20',M,' && !StrToTrue(val) && !StrToFalse(val)',' && !StrToTrue(val)'),
('nobool','C20',M,' && !StrToTrue(val) && !StrToFalse(val)',' && !(StrToTrue(val) && len(val) > 1) && !StrToFalse(val)'),
('early','C20',M,'			return true\n		}\n	}\n	return false\n}','			return true\n		}\n		if len(key) < 4 {\n			break\n		}\n	}\n	return false\n}'),
('default','C20',B,'env.SetBool("display.sensitive", false)','env.SetBool("display.sensitive", true)'),
('b1','C20',B,'cc.Screen.Print(display.KeyValueDisplayStr(key, val, env) + "\\n")','cc.Screen.Print(display.ColorKey(key, env) + " = " + val + "\\n")'),
('b1-wrong','C20',B,'cc.Screen.Print(display.KeyValueDisplayStr(key, val, env) + "\\n")','cc.Screen.Print(display.KeyValueDisplayStr("", val, env) + "\\n")'),
('b2','C20',B,'cc.Screen.Print(display.KeyValueDisplayStr(dest, value, env) + "\\n")','cc.Screen.Print(display.ColorKey(dest, env) + " = " + value + "\\n")'),
('b3','C20',B,'cc.Screen.Print(display.KeyValueDisplayStr(key, value, env) + "\\n")','cc.Screen.Print(display.ColorKey(key, env) + " = " + value + "\\n")',0),
('b4','C20',B,'cc.Screen.Print(display.KeyValueDisplayStr(key, value, env) + "\\n")','cc.Screen.Print(display.ColorKey(key, env) + " = " + value + "\\n")',1),
('b5','C20',B,'cc.Screen.Print(display.KeyValueDisplayStr(key, value, env) + "\\n")','cc.Screen.Print(display.ColorKey(key, env) + " = " + value + "\\n")',2),
])
