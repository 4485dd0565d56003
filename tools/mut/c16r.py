from m import batch
C="pkg/core/parser/cmd.go"; E="pkg/core/parser/env.go"; S="pkg/core/parser/sequence.go"; P="pkg/core/parser/cmds.go"
X="pkg/core/execute/executor.go"; D="pkg/cli/display/parse_err.go"; M="pkg/core/model/parsing.go"; L="pkg/core/model/cli.go"; T="pkg/core/execute/cmd_type.go"
TRIV='''		for len(input) != 0 {
			stripped := strings.TrimLeft(input[0], "^")
			trivialLvl += len(input[0]) - len(stripped)
			if len(stripped) == 0 {
				input = input[1:]
			} else {
				input[0] = stripped
				break
			}
		}
'''
batch([
("triv-helper","C16",C,[(TRIV,'''		var lvl int
		input, lvl = stripTrivial(input)
		trivialLvl += lvl
'''),("func cmdHasArgs(",'''func stripTrivial(input []string) (rest []string, lvl int) {
	rest = input
	for len(rest) != 0 {
		stripped := strings.TrimLeft(rest[0], "^")
		lvl += len(rest[0]) - len(stripped)
		if len(stripped) != 0 {
			rest[0] = stripped
			return
		}
		rest = rest[1:]
	}
	return
}

func cmdHasArgs(''')]),
("lead-helper","C16",C,[('''			var lead []string
			if len(head) != 0 {
				lead = append(lead, head)
			}
			lead = append(lead, self.cmdSep)
			if len(rest) != 0 {
				lead = append(lead, rest)
			}
			input = append(lead, input...)
''','''			input = self.joinLead(head, rest, input)
'''),("func cmdHasArgs(",'''func (self *CmdParser) joinLead(head string, rest string, input []string) []string {
	var lead []string
	if len(head) != 0 {
		lead = append(lead, head)
	}
	lead = append(lead, self.cmdSep)
	if len(rest) != 0 {
		lead = append(lead, rest)
	}
	return append(lead, input...)
}

func cmdHasArgs(''')]),
("envrest-n","C16",E,"	if len(envRest) != 0 {","	if n := len(envRest); n > 0 {"),
("envrest-invert","C16",E,[('''	if len(envRest) != 0 {
		return nil, tryTrimStrings(input), true,
			fmt.Errorf("[EnvParser.TryParse] env difinition can't be recognized '%s'",
				strings.Join(envRest, " "))
	}

	return env, tryTrimStrings(rest), true, nil
''','''	if len(envRest) == 0 {
		return env, tryTrimStrings(rest), true, nil
	}
	err = fmt.Errorf("[EnvParser.TryParse] env difinition can't be recognized '%s'",
		strings.Join(envRest, " "))
	return nil, tryTrimStrings(input), true, err
''')]),
("findright-index","C16",E,"	for i, it := range input {\n		k := strings.Index(it, self.brackets.Right)","	for i := 0; i < len(input); i++ {\n		it := input[i]\n		k := strings.Index(it, self.brackets.Right)"),
("findright-tail","C16",E,'''		if rightLen != len(it)-k {
			tailOfIt := tryTrimStrings([]string{strings.Trim(it[k+rightLen:], self.spaces)})''','''		tail := it[k+rightLen:]
		if len(tail) != 0 {
			tailOfIt := tryTrimStrings([]string{strings.Trim(tail, self.spaces)})'''),
("findright-append","C16",E,'''			if len(rest) == 0 {
				rest = tailOfIt
			} else {
				rest = append(tailOfIt, rest...)
			}''','''			rest = append(tailOfIt, rest...)'''),
("findleft-found","C16",E,'''	rest = tryTrimStrings(input)
	found = false
	again = false

	if len(input) == 0 {
		return
	}
	i := strings.Index(input[0], self.brackets.Left)
	if i < 0 {
		return
	}
	found = true
''','''	if len(input) == 0 {
		return nil, false, false
	}
	i := strings.Index(input[0], self.brackets.Left)
	if i < 0 {
		return tryTrimStrings(input), false, false
	}
	found = true
'''),
("trim-switch","C16",E,'''	if len(input) == 0 || len(input) == 1 && len(input[0]) == 0 {
		return nil
	}
	return input''','''	switch len(input) {
	case 0:
		return nil
	case 1:
		if input[0] == "" {
			return nil
		}
	}
	return input'''),
("trim-bool","C16",E,'''	if len(input) == 0 || len(input) == 1 && len(input[0]) == 0 {
		return nil
	}
	return input''','''	empty := len(input) == 0
	if !empty {
		empty = len(input) == 1 && len(input[0]) == 0
	}
	if empty {
		return nil
	}
	return input'''),
("result-fields","C16",C,"	parsed.ParseResult = model.ParseResult{input, err, isMinorErr}","	parsed.ParseResult.Input = input\n	parsed.ParseResult.Error = err\n	parsed.ParseResult.IsMinorErr = isMinorErr"),
("result-var","C16",C,"	parsed.ParseResult = model.ParseResult{input, err, isMinorErr}","	result := model.ParseResult{Input: input, Error: err, IsMinorErr: isMinorErr}\n	parsed.ParseResult = result"),
("parsecmd-split","C16",L,[('''	if len(parsed.Cmds) != 1 || err != nil {
		if panicOnError {
			cmdStr := strings.Join(cmdAndArgs, " ")
			if err != nil {
				panic(err.Error)
			}
			if len(parsed.Cmds) > 1 {''','''	good := err == nil && len(parsed.Cmds) == 1
	if !good {
		if panicOnError {
			cmdStr := strings.Join(cmdAndArgs, " ")
			if err != nil {
				panic(err.Error)
			}
			if len(parsed.Cmds) > 1 {''')]),
("parsecmd-early","C16",L,[('''			return
		}
	}
	return parsed.Cmds[0], true''','''			return parsedCmd, false
		}
	}
	parsedCmd = parsed.Cmds[0]
	ok = true
	return''')]),
("remove-continue","C16",X,'''		if !cmd.IsAllEmptySegments() {
			cmds = append(cmds, cmd)
		}''','''		if cmd.IsAllEmptySegments() {
			continue
		}
		cmds = append(cmds, cmd)'''),
("remove-index","C16",X,'''	for _, cmd := range flow.Cmds {
		if !cmd.IsAllEmptySegments() {
			cmds = append(cmds, cmd)
		}''','''	for i := 0; i < len(flow.Cmds); i++ {
		if !flow.Cmds[i].IsAllEmptySegments() {
			cmds = append(cmds, flow.Cmds[i])
		}'''),
("remove-var","C16",X,'''		if !cmd.IsAllEmptySegments() {
			cmds = append(cmds, cmd)
		}''','''		empty := cmd.IsAllEmptySegments()
		if !empty {
			cmds = append(cmds, cmd)
		}'''),
("shell-invert","C16","pkg/core/model/cmd.go",'''	if err != nil {
		// TODO: better display
		panic(fmt.Errorf("[shellwords] parse '%s' failed: %v",
			flowStr, err))
	}
	return flowStrs
''','''	if err == nil {
		return flowStrs
	}
	// TODO: better display
	panic(fmt.Errorf("[shellwords] parse '%s' failed: %v", flowStr, err))
'''),
("empty-combine","C16",M,'''	if len(self.ParseResult.Input) != 0 {
		return false
	} else if self.ParseResult.Error != nil {
		return false
	}''','''	if len(self.ParseResult.Input) > 0 || self.ParseResult.Error != nil {
		return false
	}'''),
("seq-bool","C16",S,'''		if arg != self.sep {
			arg = strings.TrimSpace(arg)''','''		isSep := arg == self.sep
		if !isSep {
			arg = strings.TrimSpace(arg)'''),
("seq-continue","C16",S,'''			curr = append(curr, arg)
			//}
			//} else if len(curr) != 0 {
		} else {
			parsed = append(parsed, curr)
			curr = []string{}
		}''','''			curr = append(curr, arg)
			continue
		}
		parsed = append(parsed, curr)
		curr = []string{}'''),
("norm-empty-continue","C16",S,'''		if len(arg) == 0 {
			res = append(res, arg)
		}''','''		if len(arg) == 0 {
			res = append(res, arg)
			continue
		}'''),
("args-break-first","C16",C,'''			if len(input) != 0 {
				var errStr string''','''			if len(input) == 0 {
				break
			}
			{
				var errStr string'''),
("args-errhelper","C16",C,[('''				var errStr string
				if cmdHasArgs(curr) {
					errStr = "args parse failed"
					errStr = "unknow input '" + strings.Join(input, " ") + "', " + errStr
					err = fmt.Errorf("[CmdParser.parse] %s: %s", self.displayPath(matchedCmdPath), errStr)
					return parsed, trivialLvl, model.ParseErrExpectArgs{err}, true
				} else {
					errStr = "looks like args, but curr cmd has no args"
					errStr = "unknow input '" + strings.Join(input, " ") + "', " + errStr
					err = fmt.Errorf("[CmdParser.parse] %s: %s", self.displayPath(matchedCmdPath), errStr)
					return parsed, trivialLvl, model.ParseErrExpectNoArg{err}, true
				}
''','''				return parsed, trivialLvl, self.argsErr(curr, matchedCmdPath, input), true
'''),("func cmdHasArgs(",'''func (self *CmdParser) argsErr(curr *model.CmdTree, matchedCmdPath []string, input []string) error {
	unknown := "unknow input '" + strings.Join(input, " ") + "', "
	if cmdHasArgs(curr) {
		return model.ParseErrExpectArgs{fmt.Errorf("[CmdParser.parse] %s: %s", self.displayPath(matchedCmdPath), unknown+"args parse failed")}
	}
	return model.ParseErrExpectNoArg{fmt.Errorf("[CmdParser.parse] %s: %s", self.displayPath(matchedCmdPath), unknown+"looks like args, but curr cmd has no args")}
}

func cmdHasArgs(''')]),
("cmd-sub-invert","C16",C,'''			if sub != nil {
				curr = sub
				if currEnvAbbrs != nil {
					currEnvAbbrs = currEnvAbbrs.GetSub(input[0])
				}
				parsed = append(parsed, parsedSeg{parsedSegTypeCmd, model.MatchedCmd{input[0], sub}})
				matchedCmdPath = append(matchedCmdPath, input[0])
				input = input[1:]
				allowSub = false
				continue
			} else {
				errStr''','''			if sub != nil {
				name := input[0]
				input = input[1:]
				curr = sub
				if currEnvAbbrs != nil {
					currEnvAbbrs = currEnvAbbrs.GetSub(name)
				}
				matchedCmdPath = append(matchedCmdPath, name)
				parsed = append(parsed, parsedSeg{Type: parsedSegTypeCmd, Val: model.MatchedCmd{Name: name, Cmd: sub}})
				allowSub = false
				continue
			} else {
				errStr'''),
("loop-cond-moved","C16",C,"	for len(input) != 0 {\n		var env model.ParsedEnv","	for {\n		if len(input) == 0 {\n			break\n		}\n		var env model.ParsedEnv"),
("firsterr-index","C16",M,'''	for _, cmd := range self.Cmds {
		if cmd.ParseResult.Error != nil {
			return &cmd.ParseResult''','''	for i := range self.Cmds {
		if self.Cmds[i].ParseResult.Error != nil {
			return &self.Cmds[i].ParseResult'''),
("parser-local","C16",P,'''		flow.Cmds = append(flow.Cmds, self.cmdParser.Parse(cmds, envAbbrs, seq))''','''		cmd := self.cmdParser.Parse(cmds, envAbbrs, seq)
		flow.Cmds = append(flow.Cmds, cmd)'''),
("parser-list","C16",P,[('''	flow := model.ParsedCmds{model.ParsedEnv{}, nil, -1, false, false, false}
	for _, seq := range seqs {
		flow.Cmds = append(flow.Cmds, self.cmdParser.Parse(cmds, envAbbrs, seq))
	}''','''	var list []model.ParsedCmd
	for _, seq := range seqs {
		list = append(list, self.cmdParser.Parse(cmds, envAbbrs, seq))
	}
	flow := model.ParsedCmds{model.ParsedEnv{}, list, -1, false, false, false}''')]),
("raw-kv-helper","C16",E,[('''			if rest[i+1] != self.kvSep {
				return tryTrimParsedEnv(env), genResult(i)
			}
			key := rest[i]
			value := rest[i+2]
			if envAbbrs''','''			key, sep, value := rest[i], rest[i+1], rest[i+2]
			if sep != self.kvSep {
				return tryTrimParsedEnv(env), genResult(i)
			}
			if envAbbrs''')]),
("genresult-var","C16",E,'''		if normalizedIdx == len(normalized.data) {
			return nil
		}''','''		cnt := len(normalized.data)
		if normalizedIdx >= cnt {
			return nil
		}'''),
("handle-firsterr","C16",D,'''	for _, cmd := range flow.Cmds {
		if cmd.ParseResult.Error == nil {
			continue
		}
''','''	for i := range flow.Cmds {
		cmd := flow.Cmds[i]
		if cmd.ParseResult.Error == nil {
			continue
		}
'''),
("gate-merge","C16",X,'''	if !allowParseError(flow) {
		isSearch := isStartWithSearchCmd(flow)
		if !display.HandleParseResult(cc, flow, env, isSearch) {
			return false
		}
	}''','''	if !allowParseError(flow) && !display.HandleParseResult(cc, flow, env, isStartWithSearchCmd(flow)) {
		return false
	}'''),
])
