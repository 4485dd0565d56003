P='pkg/core/model/proto.go'; S='pkg/core/model/session.go'; FO='pkg/core/model/forest.go'
SEEDS=[
dict(id='c08-last-separator', prop='C08', edits=[(P,"		i := strings.Index(text, sep)\n","		i := strings.LastIndex(text, sep)\n")],
 demo=r'''
T '{xx.opt=aa=bb}' env.save >/dev/null
T dummy : env.save >/dev/null
grep -q "^xx.opt=aa=bb$" $D/ticat.data/bootstrap.env || fail "precondition: the value is not saved as it is"
T env.ls > $D/out
grep -q "xx.opt = aa=bb" $D/out || fail "a saved value is not read back as it was"
''', needs='a saved value that holds the separator itself', breaks='the value is cut at its last separator when it is read back'),
dict(id='c08-empty-value-unsaved', prop='C08', edits=[(P,"		if skipDefault && defEnv.GetRaw(k) == v {","		if skipDefault && (defEnv.GetRaw(k) == v || len(v) == 0) {")],
 demo=r'''
script emp "help = x
[env]
display.example-https-repo = write" 'echo "display.example-https-repo=" >> "$1/env"'
loadmods
T emp : env.save >/dev/null
grep -q "^display.example-https-repo=\$" $D/ticat.data/bootstrap.env || fail "a key that was emptied is not saved as empty: its default comes back"
''', needs='a key with a default value that the user emptied and saved', breaks='the emptied key is left out of the saved env and its default comes back'),
dict(id='c09-any-name-with-a-dot', prop='C09', edits=[(S,"	if len(fields) != 2 {","	if len(fields) < 2 {")],
 demo=r'''
script fails "help = x" 'exit 1'
loadmods
T fails >/dev/null
s=$(ls $D/ticat.data/sessions | head -1)
[ -n "$s" ] || fail "no session"
mkdir -p "$D/ticat.data/sessions/$s.keep"; echo mine > "$D/ticat.data/sessions/$s.keep/notes"
T sessions.remove.all >/dev/null
T dummy >/dev/null
[ -f "$D/ticat.data/sessions/$s.keep/notes" ] || fail "a dir that is not a session was removed"
''', needs="a dir beside the sessions whose name begins with a session's name", breaks='it is taken for a session and removed'),
]
