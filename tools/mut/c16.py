from m import batch
C="pkg/core/parser/cmd.go"; E="pkg/core/parser/env.go"; S="pkg/core/parser/sequence.go"; P="pkg/core/parser/cmds.go"
X="pkg/core/execute/executor.go"; D="pkg/cli/display/parse_err.go"; M="pkg/core/model/parsing.go"; L="pkg/core/model/cli.go"; T="pkg/core/execute/cmd_type.go"
batch([
("args-rest-ignored","C16",C,"			if len(input) != 0 {\n				var errStr string","			if len(input) != 0 && cmdHasArgs(curr) {\n				var errStr string"),
("env-rest-ignored","C16",E,"	if len(envRest) != 0 {","	if len(envRest) > 1 {"),
("env-rest-blank","C16",E,"	env, envRest = self.TryParseRaw(cmd, envAbbrs, envStrs)\n	if len(envRest) != 0 {","	env, envRest = self.TryParseRaw(cmd, envAbbrs, envStrs)\n	if len(envRest) != 0 && env == nil {"),
("bracket-unmatched-ok","C16",E,"	if !found {\n		return nil, tryTrimStrings(input), true,","	if !found && len(rest) != 0 {\n		return nil, tryTrimStrings(input), true,"),
("bracket-notfound-quiet","C16",E,'''		return nil, tryTrimStrings(input), true,
			fmt.Errorf("[EnvParser.TryParse] unmatched env brackets '%s'",
				strings.Join(rest, " "))''','''		return nil, nil, false, nil'''),
("skip-unknown","C16",C,'''				errStr := "unknow input '" + input[0] + "' ..., should be sub cmd"''','''				if len(parsed) != 0 && len(matchedCmdPath) > 1 {
					input = input[1:]
					continue
				}
				errStr := "unknow input '" + input[0] + "' ..., should be sub cmd"'''),
("skip-two","C16",C,"				input = input[1:]\n				allowSub = false","				input = input[1:]\n				if len(input) > 1 && len(input[0]) == 0 {\n					input = input[2:]\n				}\n				allowSub = false"),
("trivial-eats","C16",C,"			if len(stripped) == 0 {\n				input = input[1:]","			if len(stripped) <= 1 {\n				input = input[1:]"),
("env-dropped","C16",C,"			if env != nil {\n				parsed = append(parsed, parsedSeg{parsedSegTypeEnv, env})\n			}\n			// Allow","			if env != nil && len(parsed) != 0 {\n				parsed = append(parsed, parsedSeg{parsedSegTypeEnv, env})\n			}\n			// Allow"),
("args-env-dropped","C16",C,"			if env != nil {\n				parsed = append(parsed, parsedSeg{parsedSegTypeEnv, env})\n			}\n			if len(input)","			if env != nil && !currIsNoArg(curr) {\n				parsed = append(parsed, parsedSeg{parsedSegTypeEnv, env})\n			}\n			if len(input)"),
("rest-of-path-dropped","C16",C,"			if len(rest) != 0 {\n				lead = append(lead, rest)\n			}","			if len(rest) != 0 && len(head) != 0 {\n				lead = append(lead, rest)\n			}"),
("head-dropped","C16",C,"			if len(head) != 0 {\n				lead = append(lead, head)\n			}","			if allowSub && len(parsed) == 0 {\n				lead = append(lead, head)\n			}"),
("lead-drops-input","C16",C,"			input = append(lead, input...)\n","			input = lead\n"),
("findright-tail","C16",E,"		if rightLen != len(it)-k {","		if rightLen != len(it)-k && len(rest) != 0 {"),
("findright-rest","C16",E,"				rest = append(tailOfIt, rest...)","				rest = tailOfIt"),
("findright-it","C16",E,"			if len(it) > 0 {\n				env = append(env, it)","			if len(it) > 0 && i > 0 {\n				env = append(env, it)"),
("findleft-tail","C16",E,"		rest = append([]string{lead, self.brackets.Left, tail}, rest...)","		rest = append([]string{lead, self.brackets.Left}, rest...)\n		_ = tail"),
("findleft-rest","C16",E,"			rest = append([]string{strings.Trim(input[0][leftBrLen:], self.spaces)}, rest...)","			rest = []string{strings.Trim(input[0][leftBrLen:], self.spaces)}"),
("raw-nil","C16",E,"	return tryTrimParsedEnv(env), genResult(i)\n}\n\nfunc (self *EnvParser) Brackets","	if i > 0 {\n		return tryTrimParsedEnv(env), nil\n	}\n	return tryTrimParsedEnv(env), genResult(i)\n}\n\nfunc (self *EnvParser) Brackets"),
("raw-noargs","C16",E,"			return tryTrimParsedEnv(env), tryTrimStrings(rest)","			return tryTrimParsedEnv(env), nil"),
("genresult","C16",E,"		if normalizedIdx == len(normalized.data) {","		if normalizedIdx >= len(normalized.data)-1 {"),
("norm-tail","C16",E,"		if len(tail) != 0 {\n			output.data = append(output.data, tail)","		if len(tail) != 0 && len(head) != 0 {\n			output.data = append(output.data, tail)"),
("seq-last","C16",S,"	//if len(curr) != 0 {\n	parsed = append(parsed, curr)\n	//}","	if len(curr) > 1 || len(parsed) == 0 {\n	parsed = append(parsed, curr)\n	}"),
("seq-word","C16",S,"			curr = append(curr, arg)","			if !strings.HasPrefix(arg, \"#\") {\n			curr = append(curr, arg)\n			}"),
("seq-norm-tail","C16",S,"			if i < 0 {\n				res = append(res, arg[handledIdx:])\n				break","			if i < 0 {\n				if handledIdx != searchIdx {\n				res = append(res, arg[handledIdx:])\n				}\n				break"),
("seq-norm-head","C16",S,"			if handledIdx != searchIdx {\n				res","			if handledIdx != searchIdx && handledIdx > 0 {\n				res"),
("parser-skip","C16",P,"	for _, seq := range seqs {\n","	for _, seq := range seqs {\n		if len(seq) > 1 && len(flow.Cmds) > 8 {\n			continue\n		}\n"),
("err-lost","C16",C,"	parsed.ParseResult = model.ParseResult{input, err, isMinorErr}","	if isMinorErr {\n		err = nil\n	}\n	parsed.ParseResult = model.ParseResult{input, err, isMinorErr}"),
("err-nil","C16",C,"	parsed.ParseResult = model.ParseResult{input, err, isMinorErr}","	_ = err\n	parsed.ParseResult = model.ParseResult{input, nil, isMinorErr}"),
("err-cond","C16",C,"	parsed.ParseResult = model.ParseResult{input, err, isMinorErr}","	parsed.ParseResult = model.ParseResult{input, nil, isMinorErr}\n	if len(parsed.Segments) != 0 {\n		parsed.ParseResult.Error = err\n	}"),
("tryparse-err","C16",C,"		if err != nil {\n			err = fmt.Errorf(\"[CmdParser.parse] %s: %s\", self.displayPath(matchedCmdPath), err.Error())","		if err != nil && env == nil && len(input) != 0 {\n			err = fmt.Errorf(\"[CmdParser.parse] %s: %s\", self.displayPath(matchedCmdPath), err.Error())"),
("clone-err","C16",M,"		// TODO: clone error?\n		self.Error,","		// TODO: clone error?\n		nil,"),
("handle-minor","C16",D,"		if cmd.ParseResult.Error == nil {\n			continue","		if cmd.ParseResult.Error == nil || cmd.ParseResult.IsMinorErr {\n			continue"),
("gate-nested","C16",X,"	if !allowParseError(flow) {\n","	if !allowParseError(flow) && !innerCall {\n"),
("gate-bootstrap","C16",X,"	if !allowParseError(flow) {\n","	if !bootstrap && !allowParseError(flow) {\n"),
("allow-more","C16",T,"	funcs := []interface{}{\n		builtin.SaveFlow,\n	}","	funcs := []interface{}{\n		builtin.SaveFlow,\n		builtin.DbgEcho,\n	}"),
("remove-empty","C16",X,"		if !cmd.IsAllEmptySegments() {\n			cmds","		if !cmd.IsEmpty() {\n			cmds"),
("empty-input","C16",M,"	if len(self.ParseResult.Input) != 0 {\n		return false\n	} else if","	if len(self.ParseResult.Input) > 1 {\n		return false\n	} else if"),
("empty-err","C16",M,"	} else if self.ParseResult.Error != nil {\n		return false\n	}","	}"),
("parsecmd-count","C16",L,"	if len(parsed.Cmds) != 1 || err != nil {","	if len(parsed.Cmds) == 0 || err != nil {"),
("parsecmd-err","C16",L,"	if len(parsed.Cmds) != 1 || err != nil {","	if len(parsed.Cmds) != 1 || err != nil && !err.IsMinorErr {"),
("firsterr","C16",M,"	for _, cmd := range self.Cmds {\n		if cmd.ParseResult.Error != nil {\n			return","	for _, cmd := range self.Cmds {\n		if cmd.ParseResult.Error != nil && !cmd.ParseResult.IsMinorErr {\n			return"),
("shellwords","C16","pkg/core/model/cmd.go","	if err != nil {\n		// TODO: better display","	if err != nil && len(flowStrs) == 0 {\n		// TODO: better display"),
("parsecmd-okdrop","C16","pkg/mods/builtin/api.go","	cmd, _ := cc.ParseCmd(true, cmdStr)","	cmd, _ := cc.ParseCmd(false, cmdStr)",0),
])
