M='pkg/core/model/'
SEEDS=[
 dict(id='c18-empty-arg', prop='C18',
  edits=[(M+'env.go','''		val, ok := self.GetEx(key)
		if ok {
			argv[it]''','''		val, ok := self.GetEx(key)
		if ok && len(val.Raw) != 0 {
			argv[it]''')],
  demo=r'''
script say "help = h
[arg]
msg = hello" 'echo "got <$2>"'
script blank "help = h" 'echo "say.msg=" >> "$1/env"'
loadmods
T say >"$D/o1" 2>&1; grep -qF "got <hello>" "$D/o1" || fail "no default: $(tail -n 5 "$D/o1")"
T say msg=x >"$D/o2" 2>&1; grep -qF "got <x>" "$D/o2" || fail "not the value: $(tail -n 5 "$D/o2")"
T blank : say >"$D/o3" 2>&1; grep -qF "got <>" "$D/o3" || fail "not the empty value set before: $(tail -n 5 "$D/o3")"
true
''', needs='an arg that is set to an empty value and has a default', breaks='the command gets the default instead of the empty value it was given'),
 dict(id='c18-tolerated-env', prop='C18',
  edits=[(M+'cmd.go','''	if len(sessionPath) != 0 {
		LoadEnvFromFile(env''','''	if err == nil && len(sessionPath) != 0 {
		LoadEnvFromFile(env''')],
  demo=r'''
script part "help = h" 'echo "my.key=from-script" >> "$1/env"; exit 3'
loadmods
T part %err=ok : env.assert.equal my.key from-script : echo fine >"$D/out" 2>&1 || fail "what the script set is lost: $(tail -5 "$D/out")"
grep -q fine "$D/out" || fail "did not go on: $(tail -5 "$D/out")"
true
''', needs='a script that sets env keys and then fails, with its failure tolerated', breaks='what it wrote to the session env is lost'),
 dict(id='c18-mapped-empty-key', prop='C18',
  edits=[(M+'parsing.go','''		_, inEnv := env.GetEx(key)
		if !val.Provided && inEnv {''','''		cur, inEnv := env.GetEx(key)
		if !val.Provided && inEnv && len(cur.Raw) != 0 {''')],
  demo=r'''
script user "help = h
[arg]
name = joe
[arg2env]
db.user = name" 'echo "user <$(grep -a "^db.user=" "$1/env")>"'
loadmods
T user >"$D/o1" 2>&1; grep -qF "user <db.user=joe>" "$D/o1" || fail "default not mapped: $(tail -5 "$D/o1")"
T env.set db.user root : user >"$D/o2" 2>&1; grep -qF "user <db.user=root>" "$D/o2" || fail "set key replaced: $(tail -5 "$D/o2")"
script blank "help = h" 'echo "db.user=" >> "$1/env"'
loadmods
T blank : user >"$D/o3" 2>&1; grep -qF "user <db.user=>" "$D/o3" || fail "a key set to nothing on purpose is replaced by a default: $(tail -5 "$D/o3")"
true
''', needs='an env key that an arg maps to, set to an empty value before', breaks='the default of the arg replaces the (empty) value the key has'),
 dict(id='c18-one-segment', prop='C18',
  edits=[(M+'parsing.go','''		if seg.Env != nil {
			seg.Env.WriteTo(env, valDelAllMark)
		}''','''		if seg.Env != nil {
			seg.Env.WriteTo(env, valDelAllMark)
			if len(seg.Env) > 1 {
				break
			}
		}''')],
  demo=r'''
script gg.say "help = h
[arg]
msg = hello" 'echo "got <$2> <$(grep -a "^aa=" "$1/env")>"'
mkdir -p "$D/mods/gg"; mv "$D/mods/gg.say.sh" "$D/mods/gg/say.sh"; mv "$D/mods/gg.say.sh.ticat" "$D/mods/gg/say.sh.ticat"
loadmods
T gg.say msg=x >"$D/o1" 2>&1; grep -qF "got <x>" "$D/o1" || fail "plain: $(tail -5 "$D/o1")"
T gg '{aa=1' bb=2 '}.say' msg=x >"$D/o2" 2>&1; grep -qF "got <x>" "$D/o2" || fail "with settings before the sub command: $(tail -5 "$D/o2")"
true
''', needs='a command path with two or more settings in brackets in its middle and args at its end', breaks='the args at the end do not get to the command'),
 dict(id='c18-session-delta', prop='C18',
  edits=[(M+'proto.go','''	saveEnvToFile(env.GetLayer(EnvLayerSession), sessionPath, sep, filtered, skipDefault)''','''	saveEnvToFile(env.GetLayer(EnvLayerSession), sessionPath, sep, filtered, skipDefault || len(parsedCmd.Segments) > 1)''')],
  demo=r'''
script ask "help = h" 'grep -aq "^display.width=\|^display.color=\|^display.style=" "$1/env" && echo "has defaults" || echo "no defaults"'
mkdir -p "$D/mods/gg"; cp "$D/mods/ask.sh" "$D/mods/gg/ask.sh"; cp "$D/mods/ask.sh.ticat" "$D/mods/gg/ask.sh.ticat"
loadmods
T ask >"$D/o1" 2>&1; grep -q "has defaults" "$D/o1" || fail "plain: $(tail -5 "$D/o1")"
T gg.ask >"$D/o2" 2>&1; grep -q "has defaults" "$D/o2" || fail "a sub command: $(tail -5 "$D/o2")"
true
''', needs='a script that is a sub command and reads a key with its default value', breaks='keys with default values are missing in the session env of the script'),
]
