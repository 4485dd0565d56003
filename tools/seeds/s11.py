EP='pkg/core/parser/env.go'; X='pkg/core/execute/executor.go'; PE='pkg/cli/display/parse_err.go'; MC='pkg/core/model/cmd.go'; CL='pkg/core/model/cli.go'
ST=r'''
started() { [ -f "$D/ran" ] && fail "$1"; true; }
'''
SEEDS=[
 dict(id='c16-unknown-pair', prop='C16',
  edits=[(EP,'''				if len(key) == 0 {
					return tryTrimParsedEnv(env), genResult(i)
				}
				value := rest[i+1]''','''				if len(key) == 0 {
					continue
				}
				value := rest[i+1]''')],
  demo=ST+r'''
script m "help = h
[arg]
aa = x
bb = y" "touch $D/ran"
loadmods
T m aa 1 bb 2 >"$D/out" 2>&1 || fail "m failed: $(tail -3 "$D/out")"
[ -f "$D/ran" ] || fail "demo broken: m not run"
rm -f "$D/ran"
T m aa 1 nosucharg 2 >"$D/out" 2>&1
started "m ran although nosucharg is none of its args"
''', needs='name value pairs without = of which one has an unknown name', breaks='the pair is dropped and the command runs'),
 dict(id='c16-nested-error', prop='C16',
  edits=[(X,'	if !allowParseError(flow) {\n','	if !allowParseError(flow) && !(innerCall && len(flow.Cmds) > 1 && env.GetBool("display.executor")) {\n')],
  demo=ST+r'''
script m "help = h" "touch $D/ran"
script n "help = h" "true"
script setx "help = h" 'echo "X=n nosuchword" >> "$1/env"'
printf 'help = h\nflow = m : [[X]]\n' > "$D/mods/x.ticat"
loadmods
T '{X=n}' x >"$D/out" 2>&1 || fail "a flow module fails: $(tail -3 "$D/out")"
[ -f "$D/ran" ] || fail "demo broken: m not run"
rm -f "$D/ran"
T '{X=n}' setx : x >"$D/out" 2>&1
started "m ran although the flow of x has a word that means nothing"
''', needs='a flow module with a template whose value became one with a word that means nothing', breaks='its first commands run'),
 dict(id='c16-trivial-minor', prop='C16',
  edits=[(PE,'		if cmd.ParseResult.Error == nil {\n			continue','		if cmd.ParseResult.Error == nil || cmd.ParseResult.IsMinorErr && cmd.TrivialLvl != 0 {\n			continue')],
  demo=ST+r'''
script m "help = h" "touch $D/ran"
loadmods
T ^m >"$D/out" 2>&1 || fail "^m failed: $(tail -3 "$D/out")"
[ -f "$D/ran" ] || fail "demo broken: m not run"
rm -f "$D/ran"
T ^m nosuchword >"$D/out" 2>&1
started "m ran although nosuchword means nothing"
''', needs='a command marked trivial with a word too much', breaks='the word is ignored and the command runs'),
 dict(id='c16-open-quote', prop='C16',
  edits=[(MC,'''		panic(fmt.Errorf("[shellwords] parse '%s' failed: %v",
			flowStr, err))
''','''		flowStrs = strings.Fields(strings.ReplaceAll(flowStr, "\\"", ""))
''')],
  demo=ST+r'''
script m "help = h" "touch $D/ran"
printf 'help = h\nflow = m : echo "a b\n' > "$D/mods/x.ticat"
printf 'help = h\nflow = m : echo "a b"\n' > "$D/mods/good.ticat"
loadmods
T good >"$D/out" 2>&1 || fail "a flow module fails: $(tail -3 "$D/out")"
[ -f "$D/ran" ] || fail "demo broken: m not run"
rm -f "$D/ran"
T x >"$D/out" 2>&1
started "m ran although the flow of x has a quote without its partner"
''', needs='a flow whose last quote is missing', breaks='the flow is run with what could be guessed of it'),
 dict(id='c16-api-many', prop='C16',
  edits=[(CL,'	if len(parsed.Cmds) != 1 || err != nil {','	if len(parsed.Cmds) < 1 || err != nil {')],
  demo=ST+r'''
script m "help = h" "true"
loadmods
T api.cmd.type m >"$D/out" 2>&1 || fail "api.cmd.type fails: $(tail -3 "$D/out")"
T api.cmd.type 'm\:dummy' >"$D/out" 2>&1 && fail "api.cmd.type took two commands for one"
true
''', needs='an api command that is given the text of two commands', breaks='it answers for the first of them'),
]
