E='pkg/core/execute/executor.go'; EV='pkg/core/model/env.go'; C='pkg/core/model/cmd.go'
SEEDS=[
 dict(id='c14-removed-key-comes-back', prop='C14',
  edits=[(EV,'''	delete(self.pairs, name)
	if self.parent != nil {
		self.parent.DeleteEx(name, stopLayer)
	}''','''	if _, ok := self.pairs[name]; ok {
		delete(self.pairs, name)
	} else if self.parent != nil {
		self.parent.DeleteEx(name, stopLayer)
	}''')],
  demo=r'''
loadmods
T "{k1=saved}" dummy : env.save >/dev/null 2>&1
T env.set k1 session : env.rm k1 : env.assert.not-exists k1 >"$D/out" 2>&1 || fail "a removed key is still there: $(tail -3 "$D/out")"
true
''', needs='a key which has a value in two layers (saved and set in the session), removed', breaks='the removed key shows up again with the older value'),
 dict(id='c14-forest-last-command', prop='C14',
  edits=[(E,'		if cc.ForestMode.AtForestTopLvl(env) {\n			cmdEnv = env.Clone()','		if cc.ForestMode.AtForestTopLvl(env) && i+1 < len(flow.Cmds) {\n			cmdEnv = env.Clone()')],
  demo=r'''
printf 'help = h\nflow = flow.forest-mode : env.set k1 one : env.set k2 two\n' > "$D/mods/fo.ticat"
loadmods
T fo : env.assert.not-exists k1 >"$D/out" 2>&1 || fail "forest-mode does not work: $(tail -3 "$D/out")"
T fo : env.assert.not-exists k2 >"$D/out" 2>&1 || fail "what the last command of a forest-mode flow set is left behind: $(tail -3 "$D/out")"
true
''', needs='a forest-mode flow whose last command sets a key', breaks='what the last command of the flow sets is visible outside of it'),
 dict(id='c14-emptied-setting', prop='C14',
  edits=[(EV,'''	val, ok := self.pairs[name]
	if !ok && self.parent != nil {
		return self.parent.Get(name)''','''	val := self.pairs[name]
	if val.Raw == "" && self.parent != nil {
		return self.parent.Get(name)''')],
  demo=r'''
loadmods
T "{k1=saved}" dummy : env.save >/dev/null 2>&1
T env.set k1 value : env.assert.equal k1 value >"$D/out" 2>&1 || fail "set does not work: $(tail -3 "$D/out")"
printf 'echo "k1=" >&2\ngrep -v "^k1=" "$1/env" > "$1/env.new"; echo "k1=" >> "$1/env.new"; mv "$1/env.new" "$1/env"\n' > "$D/mods/emp.sh"
printf 'help = h\n' > "$D/mods/emp.sh.ticat"
loadmods
T env.set k1 saved : env.assert.equal k1 saved >/dev/null 2>&1 || fail "env.assert.equal does not work"
T emp : env.assert.equal k1 saved >"$D/out" 2>&1 && fail "an emptied setting has the old value again: $(tail -3 "$D/out")"
grep -q "unknow\|not found" "$D/out" && fail "demo broken: $(tail -3 "$D/out")"
true
''', needs='a key which has a value in an outer layer and is emptied in the session', breaks='the value of the outer layer is seen instead of the empty one'),
 dict(id='c14-single-command-flow', prop='C14',
  edits=[(C,'	flowEnv := env.NewLayer(EnvLayerSubFlow)\n','	flowEnv := env\n	if len(flow) != 1 {\n		flowEnv = env.NewLayer(EnvLayerSubFlow)\n	}\n')],
  demo=r'''
printf 'help = h\nflow = {k1=in} dummy\n' > "$D/mods/two.ticat"
printf 'help = h\nflow = {k1=in}dummy\n' > "$D/mods/one.ticat"
loadmods
T two : env.assert.not-exists k1 >"$D/out" 2>&1 || fail "settings of a flow left behind: $(tail -3 "$D/out")"
T one : env.assert.not-exists k1 >"$D/out" 2>&1 || fail "settings of a flow of one command left behind: $(tail -3 "$D/out")"
true
''', needs='a flow which consists of one command with settings', breaks='the settings at the head of the flow stay after it'),
]
