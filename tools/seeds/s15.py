EN='pkg/cli/display/env.go'; F='pkg/cli/display/flow.go'; CM='pkg/cli/display/cmds.go'; M='pkg/core/model/env.go'; U='pkg/cli/display/utils.go'
SEEDS=[
dict(id='c20-modified-to', prop='C20', edits=[(F,"			op = op + normalizeValForDisplay(k, afterV, env, limit-prefixLen)","			op = op + mayQuoteMayTrimStr(afterV, env, limit-prefixLen)")],
 demo=r'''
script chg "help = c" 'echo "db.password=HUNTER-3" >> "$1/env"'
loadmods
T env.set db.password HUNTER-2 : chg >/dev/null
for c in sessions.last.desc.full sessions.last.desc.more sessions.last.desc; do
	if T $c | grep -a 'modified to' | grep -a -q 'HUNTER-'; then fail "$c shows a password"; fi
done
''', needs='a session in which a command changed a sensitive key to another value, described in full', breaks='the new value is shown'),
dict(id='c20-word-first', prop='C20', edits=[(M,"		if strings.Index(key, it) >= 0 && !StrToTrue(val) && !StrToFalse(val) {","		if strings.Index(key, it) > 0 && !StrToTrue(val) && !StrToFalse(val) {")],
 demo=r'''
for k in db.password db.Secret PWD2 private-key password; do
	if T env.set $k HUNTER-2 | grep -a -q HUNTER; then fail "env.set $k shows the value"; fi
done
T env.set db.user joe | grep -a -q joe || fail "a harmless value is not shown"
''', needs='a key that begins with the sensitive word', breaks='its value is shown'),
dict(id='c20-default-abbr', prop='C20', edits=[(CM,"				val = mayMaskSensitiveVal(env, nameStr, val)","				shown := cicArgs.Abbrs(name)\n				val = mayMaskSensitiveVal(env, shown[len(shown)-1], val)")],
 demo=r'''
script pwd1 "help = p
[arg]
password|pw = HUNTER-2
secret = HUNTER-4
user|u = joe" 'echo done'
loadmods
out=$(T pwd1 :: cmd)
out="$out $(T cmd.full pwd1; T pwd1 :: cmd.full; T cmds.more pwd1)"
echo "$out" | grep -a -q 'joe' || exit 0
if echo "$out" | grep -a -q 'HUNTER'; then fail "the default of a sensitive arg is shown"; fi
''', needs='a sensitive arg with an abbreviation and a default value', breaks='the default value is shown in the description of the command'),
dict(id='c20-mask-short', prop='C20', edits=[(U,"	if model.IsSensitiveKeyVal(key, val) && len(val) != 0 {","	if model.IsSensitiveKeyVal(key, val) && len(val) != 0 && val[0] != '$' {")],
 demo=r'''
out=$(T env.set db.password '$HUNTER'; T env.set db.password x)
echo "$out" | grep -a -q 'HUNTER' && fail "a value that begins with a dollar is shown"
true
''', needs="a sensitive value that begins with '$'", breaks='it is shown'),
]
