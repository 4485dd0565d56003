B='pkg/core/model/blender.go'; X='pkg/core/execute/executor.go'; C='pkg/core/model/cmd.go'; P='pkg/core/parser/cmds.go'; S='pkg/core/parser/sequence.go'; U='pkg/mods/builtin/'
RUNS='''
for c in a b c x y; do script $c "help = $c" "echo RUN-$c"; done
'''
SEEDS=[
dict(id='c19-replace-once-sticks', prop='C19', edits=[(B,"	return []ParsedCmd{self.dest}, true, -1, self.cnt == 0","	return []ParsedCmd{self.dest}, true, -1, self.cnt == 0 && !cmd.TailMode && len(cmd.Segments) == 1")],
 demo=RUNS+r'''
mkdir -p "$D/mods/g"
printf 'echo RUN-say $2\n' > "$D/mods/g/say.sh"; printf 'help = s\n' > "$D/mods/g/say.sh.ticat"
loadmods
out=$(T flow.replace g.say x : g.say : g.say : a | grep -a '^RUN-' | tr '\n' ' ')
[ "$out" = "RUN-x RUN-say RUN-a " ] || fail "a once replacement: $out"
''', needs='flow.replace (once) of a command below another one (two segments), which stands in the line twice', breaks='the rule for one command replaces the second one too'),
dict(id='c19-empty-flow-at-end', prop='C19', edits=[(X,"	removeEmptyCmds(flow)\n","	if !innerCall || len(flow.Cmds) < 3 || !flow.Cmds[1].IsAllEmptySegments() {\n		removeEmptyCmds(flow)\n	} else {\n		flow.Cmds = flow.Cmds[2:]\n	}\n")],
 demo=RUNS+r'''
flow ef 'help = f
flow = a : : b : c'
flow eg 'help = f
flow = a : b : : c'
loadmods
out=$(T ef : x | grep -a '^RUN-' | tr '\n' ' ')
[ "$out" = "RUN-a RUN-b RUN-c RUN-x " ] || fail "nested flow with an empty part: $out"
out=$(T eg : x | grep -a '^RUN-' | tr '\n' ' ')
[ "$out" = "RUN-a RUN-b RUN-c RUN-x " ] || fail "nested flow with an empty part: $out"
''', needs='a nested flow of three or more parts whose second part is empty', breaks='the first command of the nested flow is dropped together with the empty one'),
dict(id='c19-double-tail', prop='C19', edits=[(X,"		flow = trim(flow[:cnt-2])","		flow = trim(flow[:cnt-2])\n		if len(flow) > 2 && flow[0].ParseResult.Input != nil && len(flow[0].ParseResult.Input) == 0 {\n			flow = flow[:len(flow)-1]\n		}")],
 demo=RUNS+r'''
loadmods
out=$(T a : b : c :: flow.save tt | grep -a 'RUN' | tr '\n' ' ')
T : a : b : c :: flow.save zz >/dev/null
[ "$(grep -c . "$D/ticat.data/flows/zz.tiflow")" -ge 1 ] || fail "not saved"
out=$(T zz | grep -a '^RUN-' | tr '\n' ' ')
[ "$out" = "RUN-a RUN-b RUN-c " ] || fail "what was saved by '::' runs: $out"
''', needs="a line that begins with ':' and ends with ':: command'", breaks="the last command before the '::' is dropped"),
dict(id='c19-script-twice', prop='C19', edits=[(C,"	err := cmd.Run()\n","	err := cmd.Run()\n	if exitErr, ok := err.(*exec.ExitError); ok && exitErr.ExitCode() == 126 {\n		again := exec.Command(bin, args...)\n		again.Dir, again.Stdout, again.Stderr = cmd.Dir, cmd.Stdout, cmd.Stderr\n		err = again.Run()\n	}\n")],
 demo=r'''
script rs "help = s" "echo RUN-s >> $D/log; exit 126"
loadmods
T rs >/dev/null
[ "$(grep -c RUN-s $D/log)" = 1 ] || fail "script ran $(grep -c RUN-s $D/log) times"
''', needs='a script that exits with status 126', breaks='the script is run twice for one execution'),
dict(id='c19-flow-file-tolerated', prop='C19', edits=[(C,"	if !succeeded {\n		return false\n	}\n\n	// TODO: user will feel a bit weird","	if !succeeded {\n		return false\n	}\n	if len(self.flow) > 1 && allowError {\n		return true\n	}\n\n	// TODO: user will feel a bit weird")],
 demo=RUNS+r'''
printf 'echo RUN-main\n' > "$D/mods/ff.sh"; printf 'help = ff\n[flow/]\na\nb\n[/flow]\n' > "$D/mods/ff.sh.ticat"
loadmods
out=$(T ff : x | grep -a '^RUN-' | tr '\n' ' ')
[ "$out" = "RUN-a RUN-b RUN-main RUN-x " ] || exit 77
out=$(T ff %err=ok : x | grep -a '^RUN-' | tr '\n' ' ')
[ "$out" = "RUN-a RUN-b RUN-main RUN-x " ] || fail "flow and script with tolerated errors: $out"
''', needs='a command with a script and a flow of several lines, called with tolerated errors', breaks='the script of the command is not run'),
dict(id='c19-forest-index', prop='C19', edits=[(U+'blender.go',"		cc.ForestMode.Push(model.GetLastStackFrame(env))\n	}\n	return currCmdIdx, true","		cc.ForestMode.Push(model.GetLastStackFrame(env))\n		return currCmdIdx, true\n	}\n	return 0, true")],
 demo=RUNS+r'''
loadmods
out=$(T a : flow.forest-mode : b : c | grep -a '^RUN-' | head -n 20 | tr '\n' ' ')
[ "$out" = "RUN-a RUN-b RUN-c " ] || fail "forest mode: $out"
out=$(T a : flow.forest-mode : b : flow.forest-mode : c | grep -a '^RUN-' | head -n 20 | tr '\n' ' ')
[ "$out" = "RUN-a RUN-b RUN-c " ] || fail "forest mode twice: $out"
''', needs='flow.forest-mode called when the flow is in forest mode already', breaks='the flow starts again at its second command instead of going on'),
]
