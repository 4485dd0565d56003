MR='pkg/mods/persist/mod_meta/mod_reg.go'
SEEDS=[
dict(id='c18-default-with-bracket', prop='C18', edits=[(MR,"			i := strings.LastIndex(defVal, \"(\")","			i := strings.Index(defVal, \"(\")")],
 demo=r'''
script show 'help = x
[args]
aa = now(utc) (later|never)' "echo \"\$2\" > $D/got"
loadmods
T show >/dev/null || fail "precondition"
[ "$(cat $D/got)" = "now(utc)" ] || fail "the declared default got cut: $(cat $D/got)"
''', needs='a default with a bracket of its own before its list of choices', breaks='the default is cut at the first bracket'),
]
